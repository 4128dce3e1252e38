// Package ref is the reference model of the Stream VByte format: written from
// the format's definition (README and paper), one integer at a time, with no
// tables, no unrolling and no code shared with the library.
package ref

// ByteLen is the minimal number of bytes (1 to 4) that hold x.
func ByteLen(x uint32) int {
	switch {
	case x < 1<<8:
		return 1
	case x < 1<<16:
		return 2
	case x < 1<<24:
		return 3
	}
	return 4
}

// Ctrl returns the control bytes for xs: two bits per integer, first lowest.
func Ctrl(xs []uint32) []byte {
	out := make([]byte, (len(xs)+3)/4)
	for i, x := range xs {
		out[i/4] |= byte(ByteLen(x)-1) << uint(2*(i%4))
	}
	return out
}

// Data returns the packed minimal little-endian bytes of xs.
func Data(xs []uint32) []byte {
	out := make([]byte, 0, 4*len(xs))
	for _, x := range xs {
		for j := 0; j < ByteLen(x); j++ {
			out = append(out, byte(x>>uint(8*j)))
		}
	}
	return out
}

// Encode returns the canonical stream for xs.
func Encode(xs []uint32) []byte { return append(Ctrl(xs), Data(xs)...) }

// CtrlLen is the encoded length that the two bits at position i of ctrl name.
func CtrlLen(ctrl []byte, i int) int { return int(ctrl[i/4]>>uint(2*(i%4))&3) + 1 }

// DataLen is the number of data bytes n integers occupy under ctrl.
func DataLen(ctrl []byte, n int) int {
	t := 0
	for i := 0; i < n; i++ {
		t += CtrlLen(ctrl, i)
	}
	return t
}

// Decode returns the n integers that ctrl and data define and the number of
// data bytes they occupy.
func Decode(ctrl, data []byte, n int) ([]uint32, int) {
	out := make([]uint32, n)
	pos := 0
	for i := 0; i < n; i++ {
		l := CtrlLen(ctrl, i)
		for j := 0; j < l; j++ {
			out[i] |= uint32(data[pos+j]) << uint(8*j)
		}
		pos += l
	}
	return out, pos
}

// Diffs returns the successive differences of xs from base, modulo 2^32.
func Diffs(xs []uint32, base uint32) []uint32 {
	out := make([]uint32, len(xs))
	for i, x := range xs {
		out[i] = x - base
		base = x
	}
	return out
}

// Sums is the inverse of Diffs.
func Sums(ds []uint32, base uint32) []uint32 {
	out := make([]uint32, len(ds))
	for i, d := range ds {
		base += d
		out[i] = base
	}
	return out
}

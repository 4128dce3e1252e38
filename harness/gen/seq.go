package gen

import (
	"encoding/hex"
	"encoding/json"
	"sync"

	"verif/harness/pbt"
	"verif/harness/ref"
)

// Hex is a byte string written in hexadecimal in case files.
type Hex []byte

func (h Hex) MarshalText() ([]byte, error) { return []byte(hex.EncodeToString(h)), nil }
func (h *Hex) UnmarshalText(b []byte) (err error) {
	*h, err = hex.DecodeString(string(b))
	return err
}

// Seq is a sequence of integers: explicit (Xs) or generated from (N, Pat, Seed).
type Seq struct {
	N    int      `json:"n"`
	Pat  int      `json:"pattern"`
	Seed uint64   `json:"seed,omitempty"`
	Xs   []uint32 `json:"xs,omitempty"`
	memo []uint32
}

// Huge is the pattern of sequences too long to keep several copies of: mostly
// 4-byte numbers, computable by position.
const Huge = -2

// HugeAt is element i of the huge pattern.
func HugeAt(i int) uint32 {
	x := uint32(i)*0x9e3779b1 ^ uint32(uint64(i)>>20)
	if x>>26 == 5 {
		return x >> (8 * (1 + x&1 + x>>1&1))
	}
	return x | 1<<28
}

// HugeFill fills xs with the huge pattern, in parallel.
func HugeFill(xs []uint32) {
	var wg sync.WaitGroup
	step := len(xs)/8 + 1
	for lo := 0; lo < len(xs); lo += step {
		hi := lo + step
		if hi > len(xs) {
			hi = len(xs)
		}
		wg.Add(1)
		go func(lo, hi int) {
			defer wg.Done()
			for i := lo; i < hi; i++ {
				xs[i] = HugeAt(i)
			}
		}(lo, hi)
	}
	wg.Wait()
}

// Explicit is a Seq that holds xs.
func Explicit(xs []uint32) Seq { return Seq{N: len(xs), Pat: -1, Xs: xs} }

// Random is a generated Seq of n integers.
func Random(r *pbt.Rand, n int) Seq {
	return Seq{N: n, Pat: r.N(len(Patterns)), Seed: r.U64()}
}

// WithPat is a generated Seq of n integers following pattern p.
func WithPat(r *pbt.Rand, p, n int) Seq { return Seq{N: n, Pat: p, Seed: r.U64()} }

// MarshalJSON writes short sequences out.
func (s Seq) MarshalJSON() ([]byte, error) {
	type plain Seq
	if s.Pat != -1 && s.N <= 300 {
		s = Explicit(s.Nums())
	}
	return json.Marshal(plain(s))
}

func (s *Seq) Nums() []uint32 {
	if s.Pat == -1 {
		return s.Xs
	}
	if s.memo == nil && s.Pat == Huge {
		s.memo = make([]uint32, s.N)
		HugeFill(s.memo)
	}
	if s.memo == nil {
		s.memo = Nums(pbt.NewRand(s.Seed, "seq", s.Pat), s.Pat, s.N)
	}
	return s.memo
}

func (s *Seq) Hash(h pbt.Hash) pbt.Hash {
	if s.Pat == -1 {
		return h.U32s(s.Xs)
	}
	if s.N <= 4096 {
		return h.U32s(s.Nums())
	}
	return h.U64(uint64(s.N)).U64(uint64(s.Pat)).U64(s.Seed)
}

// Mixed says whether the sequence spans more than one control byte and uses
// more than one encoded length.
func Mixed(xs []uint32) bool {
	if len(xs) < 5 {
		return false
	}
	l := ref.ByteLen(xs[0])
	for _, x := range xs[1:] {
		if ref.ByteLen(x) != l {
			return true
		}
	}
	return false
}

// Shrink proposes simpler sequences.
func (s *Seq) Shrink(try func(Seq) bool) bool {
	if s.Pat != -1 && s.N > 3000 {
		for _, n := range []int{s.N / 4, s.N / 2, s.N - s.N/4, s.N - s.N/16, s.N - 1000, s.N - 32, s.N - 1} {
			if n >= 0 && n < s.N && try(Seq{N: n, Pat: s.Pat, Seed: s.Seed}) {
				return true
			}
		}
		return false
	}
	if s.Pat != -1 {
		return try(Explicit(append([]uint32{}, s.Nums()...)))
	}
	return pbt.ShrinkU32s(s.Xs, func(xs []uint32) bool { return try(Explicit(xs)) })
}

// SizeLabel classifies a length for the coverage labels.
func SizeLabel(n int) string {
	switch {
	case n == 0:
		return "n=0"
	case n < 4:
		return "n<4"
	case n < 16:
		return "n<16"
	case n < 64:
		return "n<64"
	case n < 1024:
		return "n<1024"
	case n < 1<<17:
		return "n<2^17"
	case n < 1<<20:
		return "n<2^20"
	}
	return "n>=2^20"
}

// Raw is a well-formed stream: explicit (Ctrl, Data) or generated.
type Raw struct {
	N     int    `json:"n"`
	Seed  uint64 `json:"seed,omitempty"`
	Gen   bool   `json:"generated,omitempty"`
	Ctrl  Hex    `json:"ctrl,omitempty"`
	Data  Hex    `json:"data,omitempty"`
	Trail Hex    `json:"trail,omitempty"`
	// so many more bytes after the trail, of a kind (see rest)
	Rest     int `json:"rest,omitempty"`
	RestKind int `json:"rest_kind,omitempty"`
	done     bool
}

// WithRest adds a rest of the given length, or one that gives the whole stream
// a length next to a power of two.
func (w Raw) WithRest(r *pbt.Rand, max int) Raw {
	w.Fill()
	w.RestKind = r.N(4)
	n := len(w.Ctrl) + len(w.Data) + len(w.Trail)
	switch r.N(4) {
	case 0: // whole length next to a power of two
		for e := r.In(4, 28); 1<<uint(e) <= max; e++ {
			if k := 1<<uint(e) - n + r.In(-2, 2); k > 0 {
				w.Rest = k
				return w
			}
		}
	case 1: // a multiple of the stream, or of the longest possible one
		if w.Rest = r.In(1, 9) * n; r.Bool() {
			w.Rest = 5*w.N - n + r.N(8)
		}
		if w.Rest > 0 && w.Rest <= max {
			return w
		}
	}
	k := max
	for k > 64 && r.Chance(3, 4) {
		k /= 4
	}
	w.Rest = 1 + r.N(k)
	return w
}

func (w *Raw) rest(b []byte) []byte {
	n := len(b)
	for i := 0; i < w.Rest; i++ {
		c := byte(0)
		switch w.RestKind {
		case 1:
			c = 0xff
		case 2:
			c = byte(uint32(i+7) * 2654435761 >> 19)
		case 3: // the same stream again and again
			if n > 0 {
				c = b[i%n]
			}
		}
		b = append(b, c)
	}
	return b
}

// RandomRaw is a generated stream for n integers.
func RandomRaw(r *pbt.Rand, n int) Raw { return Raw{N: n, Seed: r.U64(), Gen: true} }

// RawOf builds a stream from control bytes, with random data.
func RawOf(r *pbt.Rand, n int, ctrl []byte) Raw {
	w := Raw{N: n, Ctrl: ctrl, Data: Bytes(r, ref.DataLen(ctrl, n))}
	if r.Chance(1, 3) {
		w.Trail = Bytes(r, 1+r.N(48))
	}
	return w
}

// Fill makes a generated stream explicit in memory.
func (w *Raw) Fill() {
	if !w.Gen || w.done {
		return
	}
	r := pbt.NewRand(w.Seed, "raw", 0)
	w.Ctrl = Ctrls(r, (w.N+3)/4)
	w.Data = Bytes(r, ref.DataLen(w.Ctrl, w.N))
	if r.Chance(1, 3) {
		w.Trail = Bytes(r, 1+r.N(48))
	}
	w.done = true
}

// MarshalJSON leaves out the bytes of generated streams too large to print.
func (w Raw) MarshalJSON() ([]byte, error) {
	type plain Raw
	return json.Marshal(plain(w.Compact()))
}

func (w Raw) small() bool { return !w.Gen || w.N <= 2000 }

// Compact returns the case as it should be written to a file.
func (w Raw) Compact() Raw {
	if w.small() {
		w.Fill()
		w.Gen, w.Seed = false, 0
	} else {
		w.Ctrl, w.Data, w.Trail = nil, nil, nil
	}
	return w
}

// Stream returns the whole stream with slack readable bytes of capacity after it.
func (w *Raw) Stream(slack int) []byte {
	w.Fill()
	n := len(w.Ctrl) + len(w.Data) + len(w.Trail) + w.Rest
	b := make([]byte, 0, n+slack)
	b = w.rest(append(append(append(b, w.Ctrl...), w.Data...), w.Trail...))
	s := b[n : n+slack]
	for i := range s {
		s[i] = 0xEE
	}
	return b[:n]
}

func (w *Raw) Hash(h pbt.Hash) pbt.Hash {
	if w.Gen && w.N > 4096 {
		return h.U64(uint64(w.N)).U64(w.Seed).U64(uint64(4*w.Rest + w.RestKind))
	}
	w.Fill()
	return h.U64(uint64(w.N)).Bytes(w.Ctrl).Bytes(w.Data).U64(uint64(len(w.Trail))).U64(uint64(4*w.Rest + w.RestKind))
}

// Minimal says whether every integer has its shortest encoding.
func (w *Raw) Minimal() bool {
	w.Fill()
	pos := 0
	for i := 0; i < w.N; i++ {
		l := ref.CtrlLen(w.Ctrl, i)
		if l > 1 && w.Data[pos+l-1] == 0 {
			return false
		}
		pos += l
	}
	return true
}

// Junk says whether unused positions of the last control byte are non-zero.
func (w *Raw) Junk() bool {
	w.Fill()
	return w.N%4 != 0 && w.Ctrl[len(w.Ctrl)-1]>>uint(2*(w.N%4)) != 0
}

// Mixed is the non-triviality rule for streams.
func (w *Raw) Mixed() bool {
	w.Fill()
	if w.N < 5 {
		return false
	}
	for i := 1; i < w.N; i++ {
		if ref.CtrlLen(w.Ctrl, i) != ref.CtrlLen(w.Ctrl, 0) {
			return true
		}
	}
	return false
}

// keep builds the stream of the integers for which use is true, in order.
func (w *Raw) keep(use func(i int) bool) Raw {
	var lens []int
	var data []byte
	pos := 0
	for i := 0; i < w.N; i++ {
		l := ref.CtrlLen(w.Ctrl, i)
		if use(i) {
			lens = append(lens, l)
			data = append(data, w.Data[pos:pos+l]...)
		}
		pos += l
	}
	c := make([]byte, (len(lens)+3)/4)
	for i, l := range lens {
		c[i/4] |= byte(l-1) << uint(2*(i%4))
	}
	return Raw{N: len(lens), Ctrl: c, Data: data, Trail: w.Trail, Rest: w.Rest, RestKind: w.RestKind}
}

// Shrink proposes simpler streams.
func (w *Raw) Shrink(try func(Raw) bool) bool {
	for _, k := range []int{0, w.Rest / 16, w.Rest / 4, w.Rest / 2, w.Rest - w.Rest/16, w.Rest - w.Rest/256, w.Rest - 1} {
		if k >= 0 && k < w.Rest {
			c := *w
			if c.Rest = k; try(c) {
				return true
			}
		}
	}
	if w.Gen && w.N > 3000 {
		for _, n := range []int{w.N / 4, w.N / 2, w.N - w.N/4, w.N - w.N/16, w.N - 1000, w.N - 32, w.N - 1} {
			if n >= 0 && n < w.N && try(Raw{N: n, Seed: w.Seed, Gen: true, Rest: w.Rest, RestKind: w.RestKind}) {
				return true
			}
		}
		return false
	}
	if w.Gen {
		return try(w.Compact())
	}
	if len(w.Trail) > 0 {
		for _, k := range []int{0, len(w.Trail) / 2, len(w.Trail) - 1} {
			c := *w
			c.Trail = w.Trail[:k]
			if try(c) {
				return true
			}
		}
	}
	for k := w.N; k >= 1; k /= 2 {
		for i := 0; i+k <= w.N; i += k {
			if try(w.keep(func(j int) bool { return j < i || j >= i+k })) {
				return true
			}
		}
	}
	if w.Junk() {
		if try(w.keep(func(int) bool { return true })) {
			return true
		}
	}
	pos := 0
	for i := 0; i < w.N; i++ { // shorten one integer
		l := ref.CtrlLen(w.Ctrl, i)
		if l > 1 {
			c := Raw{N: w.N, Ctrl: append(Hex{}, w.Ctrl...), Trail: w.Trail, Rest: w.Rest, RestKind: w.RestKind}
			c.Ctrl[i/4] -= 1 << uint(2*(i%4))
			c.Data = append(append(Hex{}, w.Data[:pos+l-1]...), w.Data[pos+l:]...)
			if try(c) {
				return true
			}
		}
		pos += l
	}
	for i, b := range w.Data {
		for _, v := range []byte{0, 1} {
			if v < b {
				c := *w
				c.Data = append(Hex{}, w.Data...)
				c.Data[i] = v
				if try(c) {
					return true
				}
			}
		}
	}
	return false
}

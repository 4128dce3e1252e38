// Package gen generates integer sequences and raw streams. The patterns are
// chosen so that every control byte, every tail length, boundary values and
// sparse byte patterns (zero bytes below a set top byte) are all common.
package gen

import (
	"encoding/json"
	"math/bits"
	"os"
	"sort"

	"verif/harness/pbt"
	"verif/harness/ref"
)

// Dict holds integer constants found in the sources under test (and their
// neighbours): values, counts and sizes a special case would compare with.
var Dict = loadDict()

// Group is values that the sources compare elements at certain positions
// (-1: somewhere) with, one after the other, and other numbers they compare
// with in the same place.
type Group struct {
	At  []int
	Val []uint32
	Num []uint32
}

// Number draws one of the other numbers, if there are any.
func (g Group) Number(r *pbt.Rand) uint32 {
	if len(g.Num) == 0 || r.Chance(1, 4) {
		return FromDict(r)
	}
	v := g.Num[r.N(len(g.Num))]
	if r.Chance(1, 4) {
		v += uint32(r.N(3)) - 1
	}
	return v
}

// Groups are those of the sources under test, if any.
var Groups []Group

func loadDict() []uint32 {
	var d struct {
		Vals   []uint32
		Groups []Group
	}
	if p := os.Getenv("PBT_DICT"); p != "" {
		if b, err := os.ReadFile(p); err == nil {
			_ = json.Unmarshal(b, &d)
		}
	}
	if len(d.Vals) == 0 {
		d.Vals = append(d.Vals, Boundaries...)
	}
	Groups = d.Groups
	for _, v := range d.Vals { // words that are read from bytes
		if v > 0xff && len(Groups) < 120 {
			b := []uint32{v & 0xff, v >> 8 & 0xff, v >> 16 & 0xff, v >> 24}
			if v <= 0xffff {
				b = b[:2]
			}
			g := Group{}
			for i := range b {
				g.At, g.Val = append(g.At, i), append(g.Val, b[i])
			}
			Groups = append(Groups, g)
		}
	}
	return d.Vals
}

// Span is how many elements the group takes.
func (g Group) Span() int {
	n := len(g.At)
	for _, at := range g.At {
		n = max(n, at+1)
	}
	return n
}

// Put calls set for the positions, among n, at which the group's values are to
// be. Most are where the sources look for them; sometimes all are moved.
func (g Group) Put(r *pbt.Rand, n int, set func(at int, v uint32)) {
	move, more := 0, n-g.Span()
	if more > 0 && r.Chance(1, 3) {
		if move = r.N(more + 1); r.Bool() {
			move = more
		}
	}
	some := r.N(2 * n)
	for i, at := range g.At {
		if at < 0 {
			at = some % n
			if i > 0 || r.Bool() {
				some++
			}
		} else {
			at += move
		}
		if at < n && !r.Chance(1, 40) {
			v := g.Val[i]
			if r.Chance(1, 16) {
				v += uint32(r.N(3)) - 1
			}
			set(at, v)
		}
	}
}

// SeqOf makes a sequence that has what group k of the sources looks for.
func SeqOf(r *pbt.Rand, k, n int) Seq {
	g := Groups[k%len(Groups)]
	xs := Nums(r, r.N(len(Patterns)), max(n, 1))
	g.Put(r, len(xs), func(at int, v uint32) { xs[at] = v })
	if r.Chance(1, 3) { // as differences
		for i := 1; i < len(xs); i++ {
			xs[i] += xs[i-1]
		}
	}
	return Explicit(xs)
}

// RawFor makes a stream whose bytes, control or data bytes are what group k of
// the sources looks for.
func RawFor(r *pbt.Rand, k, n int) Raw {
	g := Groups[k%len(Groups)]
	w := RandomRaw(r, max(n, 1))
	w.Fill()
	w.Gen = false
	where := r.N(3) // positions in the stream, among control bytes, among data bytes
	p := make([]struct {
		at int
		v  uint32
	}, 0, len(g.At))
	span := len(w.Ctrl) + len(w.Data)
	if where == 1 {
		span = len(w.Ctrl)
	} else if where == 2 {
		span = max(1, len(w.Data))
	}
	g.Put(r, span, func(at int, v uint32) {
		if where == 2 {
			at += len(w.Ctrl)
		}
		k := 1 // bytes
		if v > 0xffff {
			k = 4
		} else if v > 0xff {
			k = 2
		}
		big := r.Chance(1, 4)
		for j := 0; j < k; j++ {
			b := v >> uint(8*j)
			if big {
				b = v >> uint(8*(k-1-j))
			}
			p = append(p, struct {
				at int
				v  uint32
			}{at + j, b & 0xff})
		}
	})
	for _, x := range p {
		if x.at < len(w.Ctrl) {
			w.Ctrl[x.at] = byte(x.v)
		}
	}
	w.Data = Bytes(r, ref.DataLen(w.Ctrl, w.N))
	for _, x := range p {
		if at := x.at - len(w.Ctrl); at >= 0 && at < len(w.Data) {
			w.Data[at] = byte(x.v)
		}
	}
	return w
}

// FromDict draws a dictionary value, often as it is, sometimes next to it.
func FromDict(r *pbt.Rand) uint32 {
	v := Dict[r.N(len(Dict))]
	switch r.N(6) {
	case 0:
		return v + 1
	case 1:
		return v - 1
	case 2:
		return -v
	}
	return v
}

// Boundaries are values next to which encoded lengths and vector tricks change.
var Boundaries = []uint32{
	0, 1, 2, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x100, 0x101, 0x17f, 0x1ff, 0x7f00, 0x7f01, 0x7fff, 0x8000, 0x8001, 0x80ff, 0xff00, 0xff01, 0xfffe, 0xffff,
	0x10000, 0x10001, 0x10100, 0x1ffff, 0x7f0000, 0x7fffff, 0x800000, 0x800001, 0xff0000, 0xff00ff, 0xffff00, 0xfffffe, 0xffffff,
	0x1000000, 0x1000001, 0x1000100, 0x1010000, 0x1010101, 0x1ffffff, 0x7f000000, 0x7fffffff, 0x80000000, 0x80000001, 0x80008000, 0x80808080,
	0xff000000, 0xff0000ff, 0xff00ff00, 0xffff0000, 0xfffffffe, 0xffffffff,
}

// Alphabet holds the bytes that vector min, pack and add steps treat differently.
var Alphabet = []byte{0, 1, 2, 0x7e, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x10, 0x55, 0xaa, 0x3c}

// OfLen returns a number whose minimal encoding has l bytes.
func OfLen(r *pbt.Rand, l int) uint32 {
	lo := []uint32{0, 0, 1 << 8, 1 << 16, 1 << 24}[l]
	span := []uint64{0, 1 << 8, 1<<16 - 1<<8, 1<<24 - 1<<16, 1<<32 - 1<<24}[l]
	switch r.N(8) {
	case 0:
		return lo
	case 1:
		return lo + uint32(span-1)
	case 2: // only the top byte set
		return uint32(1+r.N(255)) << uint(8*(l-1))
	case 3: // top byte plus a sparse rest
		x := uint32(1+r.N(255)) << uint(8*(l-1))
		return x | uint32(Alphabet[r.N(len(Alphabet))])<<uint(8*r.N(l))
	}
	return lo + uint32(r.U64()%span)
}

func alpha(r *pbt.Rand) uint32 {
	var x uint32
	for j := 0; j < 4; j++ {
		x = x<<8 | uint32(Alphabet[r.N(len(Alphabet))])
	}
	return x
}

// FromCtrl fills out with numbers whose lengths follow the repeated control bytes.
func FromCtrl(r *pbt.Rand, ctrls []byte, out []uint32) {
	for i := range out {
		c := ctrls[(i/4)%len(ctrls)]
		out[i] = OfLen(r, int(c>>uint(2*(i%4))&3)+1)
	}
}

// Patterns names the sequence families Nums chooses from.
var Patterns = []string{
	"by-length", "boundaries", "alphabet", "constant", "all-1-byte", "all-4-byte", "length-runs",
	"sorted", "small-steps", "one-odd", "control-cycle", "arithmetic", "uniform", "mostly-zero", "steps-by-length", "descending", "bytes-of-few", "halves-of-few", "periodic", "nearly-sorted",
	"dictionary", "dictionary-steps", "dictionary-one", "related",
}

// Nums fills a new slice of n numbers following pattern p.
func Nums(r *pbt.Rand, p, n int) []uint32 {
	out := make([]uint32, n)
	switch Patterns[p%len(Patterns)] {
	case "by-length":
		for i := range out {
			out[i] = OfLen(r, 1+r.N(4))
		}
	case "boundaries":
		for i := range out {
			out[i] = Boundaries[r.N(len(Boundaries))]
		}
	case "alphabet":
		for i := range out {
			out[i] = alpha(r)
		}
	case "constant":
		x := OfLen(r, 1+r.N(4))
		for i := range out {
			out[i] = x
		}
	case "all-1-byte":
		for i := range out {
			out[i] = uint32(r.Byte())
		}
	case "all-4-byte":
		for i := range out {
			out[i] = OfLen(r, 4)
		}
	case "length-runs":
		for i := 0; i < n; {
			l, k := 1+r.N(4), 1+r.N(20)
			for ; k > 0 && i < n; k-- {
				out[i] = OfLen(r, l)
				i++
			}
		}
	case "sorted":
		for i := range out {
			out[i] = OfLen(r, 1+r.N(4))
		}
		sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	case "small-steps":
		x := OfLen(r, 1+r.N(4))
		lim := []int{2, 10, 300, 70000}[r.N(4)]
		for i := range out {
			out[i] = x
			x += uint32(r.N(lim))
		}
	case "one-odd":
		a, b := 1+r.N(4), 1+r.N(4)
		k := r.N(n)
		for i := range out {
			l := a
			if i == k {
				l = b
			}
			out[i] = OfLen(r, l)
		}
	case "control-cycle":
		cs := make([]byte, 1+r.N(8))
		for i := range cs {
			cs[i] = r.Byte()
		}
		FromCtrl(r, cs, out)
	case "arithmetic":
		x, d := OfLen(r, 1+r.N(4)), OfLen(r, 1+r.N(4))
		for i := range out {
			out[i] = x
			x += d
		}
	case "uniform":
		for i := range out {
			out[i] = r.U32()
		}
	case "mostly-zero":
		for i := range out {
			if r.Chance(1, 12) {
				out[i] = OfLen(r, 1+r.N(4))
			}
		}
	case "steps-by-length":
		x := r.U32()
		for i := range out {
			x += OfLen(r, 1+r.N(4))
			out[i] = x
		}
	case "dictionary":
		for i := range out {
			out[i] = FromDict(r)
		}
	case "dictionary-steps":
		x := FromDict(r)
		for i := range out {
			x += FromDict(r)
			out[i] = x
		}
	case "dictionary-one":
		for i := range out {
			out[i] = OfLen(r, 1+r.N(4))
		}
		if n > 0 {
			out[r.N(n)] = FromDict(r)
		}
	case "bytes-of-few":
		// every byte of a number is one of few
		var few [4][]uint32
		for k := range few {
			for j := 1 + r.N(4); j > 0; j-- {
				few[k] = append(few[k], uint32(r.Byte()))
			}
		}
		free := r.N(6) // this byte is any
		for i := range out {
			for k, f := range few {
				x := f[r.N(len(f))]
				if k == free {
					x = uint32(r.Byte())
				}
				out[i] |= x << (8 * uint(k))
			}
		}
	case "halves-of-few":
		var few [2][]uint32
		for k := range few {
			for j := 1 + r.N(4); j > 0; j-- {
				few[k] = append(few[k], r.U32()&0xffff)
			}
		}
		free := r.N(3)
		for i := range out {
			for k, f := range few {
				x := f[r.N(len(f))]
				if k == free {
					x = r.U32() & 0xffff
				}
				out[i] |= x << (16 * uint(k))
			}
		}
	case "periodic":
		cycle := make([]uint32, 1+r.N(70))
		for i := range cycle {
			cycle[i] = OfLen(r, 1+r.N(4))
		}
		for i := range out {
			out[i] = cycle[i%len(cycle)]
		}
	case "nearly-sorted":
		for i := range out {
			out[i] = OfLen(r, 1+r.N(4))
		}
		switch r.N(3) {
		case 0: // a few out of place
			sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
			for k := 1 + r.N(4); k > 0 && n > 0; k-- {
				i, j := r.N(n), r.N(n)
				out[i], out[j] = out[j], out[i]
			}
		case 1: // up and down again
			k := r.N(n + 1)
			sort.Slice(out[:k], func(i, j int) bool { return out[i] < out[j] })
			sort.Slice(out[k:], func(i, j int) bool { return out[k+i] > out[k+j] })
		case 2: // several sorted runs
			for i := 0; i < n; {
				part := out[i:]
				if k := 1 + r.N(n); k < len(part) {
					part = part[:k]
				}
				sort.Slice(part, func(i, j int) bool { return part[i] < part[j] })
				i += len(part)
			}
		}
	case "related":
		related(r, out)
	case "descending":
		x := r.U32()
		for i := range out {
			out[i] = x
			x -= uint32(r.N(1000))
		}
	}
	return out
}

// related fills out with numbers that depend on each other, on their index or
// on their count.
func related(r *pbt.Rand, out []uint32) {
	n := len(out)
	for i := range out {
		out[i] = OfLen(r, 1+r.N(4))
	}
	if n == 0 {
		return
	}
	switch r.N(14) {
	case 0: // palindrome
		for i := range out {
			out[n-1-i] = out[i]
		}
	case 1: // the second half is the complement of the first
		for i := n / 2; i < n; i++ {
			out[i] = ^out[i-n/2]
		}
	case 2: // index
		c := []int{0, 1, n, -n}[r.N(4)]
		for i := range out {
			out[i] = uint32(i + c)
		}
	case 3: // the count at one end
		out[(n-1)*r.N(2)] = uint32(n)
	case 4, 5: // all add up to nothing
		var x, sum uint32
		for _, y := range out[:n-1] {
			x ^= y
			sum += y
		}
		out[n-1] = x
		if r.Chance(1, 2) {
			out[n-1] = []uint32{-sum, ^sum}[r.N(2)]
		}
	case 6: // bytes so far
		t := uint32(0)
		for i := range out {
			out[i] = t
			for x := t; x > 255; x >>= 8 {
				t++
			}
			t++
		}
	case 7: // runs of equal numbers
		k := []int{2, 3, 4, 5, 7, 8, 16}[r.N(7)]
		for i := range out {
			out[i] = out[i-i%k]
		}
	case 8: // each made from the one before
		f := r.N(4)
		for i := 1; i < n; i++ {
			switch x := out[i-1]; f {
			case 0:
				out[i] = bits.ReverseBytes32(x)
			case 1:
				out[i] = ^x
			case 2:
				out[i] = bits.RotateLeft32(x, 8)
			case 3:
				out[i] = -x
			}
		}
	case 9: // differences of one bit
		b := uint(r.N(32))
		for i := 1; i < n; i++ {
			out[i] = out[i-1] ^ 1<<b
			if r.Chance(1, 8) {
				b = uint(r.N(32))
			}
		}
	case 10: // permutation
		for i := range out {
			out[i] = uint32(i)
		}
		for i := n - 1; i > 0; i-- {
			j := r.N(i + 1)
			out[i], out[j] = out[j], out[i]
		}
	case 11: // first and last agree
		out[n-1] = out[0]
	case 12: // powers
		k := r.N(3)
		for i := range out {
			out[i] = 1<<(uint(i)%32) - uint32(k)
		}
	case 13: // groups of four repeat, with one odd number
		for i := 4; i < n; i++ {
			out[i] = out[i-4]
		}
		out[r.N(n)] = OfLen(r, 1+r.N(4))
	}
}

// Base returns a base value for differential coding of xs.
func Base(r *pbt.Rand, xs []uint32) uint32 {
	switch r.N(11) {
	case 9:
		return uint32(len(xs))
	case 10:
		if len(xs) > 0 {
			return xs[[]int{len(xs) - 1, r.N(len(xs))}[r.N(2)]]
		}
		return r.U32()
	case 8:
		return FromDict(r)
	case 0:
		return 0
	case 1:
		return 0xffffffff
	case 2:
		return Boundaries[r.N(len(Boundaries))]
	case 3, 4:
		if len(xs) > 0 {
			return xs[0] - uint32(r.N(3)) + 1
		}
		return r.U32()
	case 5:
		if len(xs) > 0 {
			return xs[0] - OfLen(r, 1+r.N(4))
		}
		return r.U32()
	}
	return OfLen(r, 1+r.N(4))
}

// Bytes returns n data bytes of a random flavour.
func Bytes(r *pbt.Rand, n int) []byte {
	out := make([]byte, n)
	switch r.N(5) {
	case 0:
		for i := range out {
			out[i] = Alphabet[r.N(len(Alphabet))]
		}
	case 1: // mostly zero: many non-minimal encodings
		for i := range out {
			if r.Chance(1, 4) {
				out[i] = r.Byte()
			}
		}
	case 2:
		b := r.Byte()
		for i := range out {
			out[i] = b
		}
	default:
		for i := range out {
			out[i] = r.Byte()
		}
	}
	return out
}

// Ctrls returns n control bytes of a random flavour.
func Ctrls(r *pbt.Rand, n int) []byte {
	out := make([]byte, n)
	switch r.N(6) {
	case 0: // all the same
		c := []byte{0, 0xff, 0x55, 0xaa, r.Byte()}[r.N(5)]
		for i := range out {
			out[i] = c
		}
	case 1: // extremes only
		for i := range out {
			out[i] = []byte{0, 0xff}[r.N(2)]
		}
	case 2: // short cycle
		var cs [3]byte
		for i := range cs {
			cs[i] = r.Byte()
		}
		k := 1 + r.N(3)
		for i := range out {
			out[i] = cs[i%k]
		}
	default:
		for i := range out {
			out[i] = r.Byte()
		}
	}
	return out
}

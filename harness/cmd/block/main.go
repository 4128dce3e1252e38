// Command block decides the block properties C07 and C08 (and, where guard
// pages exist, C10 and C20) over generated blocks.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/bits"

	"verif/harness/gen"
	"verif/harness/pbt"
	"verif/harness/ref"
)

func main() { Main() }

// Main is main for cmd/plugin.
func Main() {
	s := []*pbt.Suite{c07(), c08()}
	s = append(s, memSuites()...)
	pbt.Main(s...)
}

// counts asked of the partial functions.
var counts = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 64, 100, 255, 256, 257, 258, 259, 260, 511, 512, 1 << 16, 1<<16 + 1, 1 << 30, 1<<31 - 1, int(^uint(0) >> 1)}

func init() { // more bits than smaller integers have
	for _, e := range []int{7, 15, 24, 31, 32, 33, 48, 62} {
		for k := 0; k < 5; k++ {
			if e < bits.UintSize-1 {
				counts = append(counts, 1<<uint(e)+k)
			}
		}
	}
}

// ---- C07: encoders -----------------------------------------------------------

type encCase struct {
	Xs    []uint32 `json:"xs"` // eight integers
	Prev  uint32   `json:"prev"`
	Count int      `json:"count"`
	Fit   bool     `json:"fit,omitempty"` // slices just long enough, no spare capacity
	// a batch: every value of the low 16 bits below Hi in turn, in every lane
	Batch bool   `json:"batch,omitempty"`
	Hi    uint32 `json:"hi,omitempty"`
	Seed  uint64 `json:"seed,omitempty"`
}

func block(r *pbt.Rand) []uint32 {
	xs := make([]uint32, 8)
	switch r.N(9) {
	case 8:
		for i := range xs {
			xs[i] = gen.OfLen(r, 1+r.N(4))
		}
		if len(gen.Groups) > 0 {
			gen.Groups[r.N(len(gen.Groups))].Put(r, 8, func(at int, v uint32) { xs[at] = v })
		}
	case 0:
		for i := range xs {
			xs[i] = gen.Boundaries[r.N(len(gen.Boundaries))]
		}
	case 1:
		copy(xs, gen.Nums(r, r.N(len(gen.Patterns)), 8))
	case 2:
		for i := range xs {
			xs[i] = gen.FromDict(r)
		}
	default:
		for i := range xs {
			xs[i] = gen.OfLen(r, 1+r.N(4))
		}
	}
	return xs
}

// conditionCount is a partial count for a case made after a condition of the
// sources.
func conditionCount(r *pbt.Rand, g gen.Group) int {
	if v := g.Number(r); r.Chance(1, 4) && v < 1<<31 {
		return int(v)
	}
	return r.N(6)
}

func c07() *pbt.Suite {
	al := len(gen.Alphabet)
	words := al * al * al * al
	ctrlReps := pbt.Scale(24, 400)
	wordReps := pbt.Scale(3, 20)
	// quick: every 16th upper half; thorough: every 32-bit value in every lane
	hiStep := pbt.Scale(16, 1)
	if pbt.Slow() {
		hiStep = 2048
	}
	return &pbt.Suite{Prop: "C07",
		Rule: "Every encoder (10 functions) is run on each block of eight integers, base and partial count, and compared with the reference control value and bytes; batches run the eight-at-a-time encoders over all 65536 low halves of an upper half, so that values visit every lane. A case is non-trivial when its integers (or differences) have at least two different encoded lengths; each distinct block (by hash), and each value of a batch, counts once.",
		Sections: []pbt.Section{
			{Name: "every-length-combination", N: 65536 * ctrlReps, Make: func(r *pbt.Rand, i int) any {
				c := i / ctrlReps
				xs := make([]uint32, 8)
				for j := range xs {
					xs[j] = gen.OfLen(r, 1+c>>uint(2*j)&3)
				}
				e := &encCase{Xs: xs, Count: counts[r.N(8)]}
				if r.Bool() { // the lengths of the differences instead
					e.Prev = gen.Base(r, xs)
					e.Xs = ref.Sums(xs, e.Prev)
				} else if r.Bool() {
					e.Prev = gen.Base(r, xs)
				}
				return e
			}},
			{Name: "byte-alphabet-every-lane", N: words * 8 * wordReps, Make: func(r *pbt.Rand, i int) any {
				i /= wordReps
				lane, k := i%8, i/8
				var x uint32
				for j := 0; j < 4; j++ {
					x = x<<8 | uint32(gen.Alphabet[k%al])
					k /= al
				}
				xs := block(r)
				xs[lane] = x
				e := &encCase{Xs: xs, Count: r.N(6)}
				if r.Bool() {
					e.Prev = gen.Base(r, xs)
					e.Xs = ref.Sums(xs, e.Prev)
				}
				return e
			}},
			{Name: "partial-counts", N: len(counts) * pbt.Scale(4000, 60000), Make: func(r *pbt.Rand, i int) any {
				xs := block(r)
				return &encCase{Xs: xs, Count: counts[i%len(counts)], Prev: gen.Base(r, xs), Fit: r.Bool()}
			}},
			{Name: "random", N: pbt.Scale(1500000, 30000000), Make: func(r *pbt.Rand, i int) any {
				xs := block(r)
				return &encCase{Xs: xs, Count: r.N(6), Prev: gen.Base(r, xs), Fit: r.Bool()}
			}},
			{Name: "source-conditions", N: len(gen.Groups) * pbt.Scale(5000, 50000), Make: func(r *pbt.Rand, i int) any {
				g := gen.Groups[i%len(gen.Groups)]
				xs := block(r)
				g.Put(r, 8, func(at int, v uint32) { xs[at] = v })
				c := &encCase{Xs: xs, Count: conditionCount(r, g), Prev: g.Number(r), Fit: r.Bool()}
				if r.Chance(1, 3) {
					c.Prev = gen.Base(r, xs)
				}
				return c
			}},
			{Name: "value-sweep", N: 65536 / hiStep, Make: func(r *pbt.Rand, i int) any {
				hi := uint32(i*hiStep + r.N(hiStep))
				if hiStep > 1 && i < 16 {
					hi = uint32(i) << 12 // always include bare upper nibbles
				}
				return &encCase{Batch: true, Hi: hi << 16, Seed: r.U64()}
			}},
		},
		New: func() any { return &encCase{} },
		Hash: func(c any) uint64 {
			e := c.(*encCase)
			if e.Batch {
				return uint64(pbt.NewHash().U64(uint64(e.Hi)).U64(e.Seed))
			}
			return uint64(pbt.NewHash().U32s(e.Xs).U64(uint64(e.Prev)).U64(uint64(e.Count)))
		},
		Nontrivial: func(c any) bool {
			e := c.(*encCase)
			return e.Batch || gen.Mixed(e.Xs) || gen.Mixed(ref.Diffs(e.Xs, e.Prev))
		},
		Labels: func(c any) []string {
			e := c.(*encCase)
			if e.Batch {
				return []string{"batch of 65536 values"}
			}
			l := []string{}
			if e.Count > 4 {
				l = append(l, "count>4")
			} else {
				l = append(l, fmt.Sprintf("count=%d", e.Count))
			}
			if e.Prev != 0 {
				l = append(l, "base!=0")
			}
			for _, x := range e.Xs {
				if x >= 1<<24 && x&0xffffff == 0 {
					l = append(l, "only the top byte set")
					break
				}
			}
			return l
		},
		Shrink: func(c any, try func(any) bool) {
			e := c.(*encCase)
			if e.Batch {
				return
			}
			if pbt.ShrinkLanes(e.Xs, func(xs []uint32) bool { d := *e; d.Xs = xs; return try(&d) }) {
				return
			}
			if pbt.ShrinkU32(e.Prev, func(p uint32) bool { d := *e; d.Prev = p; return try(&d) }) {
				return
			}
			for k := 0; k < e.Count && k < 5; k++ {
				d := *e
				d.Count = k
				if try(&d) {
					return
				}
			}
		},
		Check: func(w *pbt.Worker, c any) error {
			e := c.(*encCase)
			if e.Batch {
				return encBatch(w, e)
			}
			return encCheck(w, e)
		}}
}

func encCheck(w *pbt.Worker, e *encCase) error {
	var outArr, inArr [96]byte
	_ = inArr
	xs := make([]uint32, 8, 24)
	if e.Fit {
		xs = make([]uint32, 8)
	}
	for i := range encoders {
		f := &encoders[i]
		n := lanes(f.Lanes, e.Count)
		for at := 0; at+n <= 8; at += 4 { // four-lane functions also see the upper half
			if at > 0 && f.Lanes == 8 {
				break
			}
			copy(xs, e.Xs)
			want := xs[at : at+n]
			if f.Delta {
				want = ref.Diffs(want, e.Prev)
			}
			for k := range outArr {
				outArr[k] = byte(0xC5 + k)
			}
			data := ref.Data(want)
			for k := range data { // no byte is right by accident
				outArr[k] = ^data[k]
			}
			in, out := xs[at:], outArr[:]
			if e.Fit {
				in = in[:n:n]
				if size := len(data); f.Scalar {
					out = out[:size:size]
				} else {
					out = out[:32:32]
				}
			}
			w.Calls++
			ctrl := f.F(in, out, e.Prev, e.Count)
			if wc := ctrlOf(want); ctrl != wc {
				return fmt.Errorf("%s: control value %#x, want %#x (first integer %d)", f.Name, ctrl, wc, at)
			}
			if !bytes.Equal(outArr[:len(data)], data) {
				return fmt.Errorf("%s: bytes % x, want % x (first integer %d)", f.Name, outArr[:len(data)], data, at)
			}
			if f.Lanes == 0 { // exactly the requested number
				for k := len(data); k < len(outArr); k++ {
					if outArr[k] != byte(0xC5+k) {
						return fmt.Errorf("%s: count %d wrote output byte %d, the encoding has %d", f.Name, e.Count, k, len(data))
					}
				}
			}
		}
	}
	return nil
}

func ctrlOf(xs []uint32) uint16 {
	var c uint16
	for i, b := range ref.Ctrl(xs) {
		c |= uint16(b) << uint(8*i)
	}
	return c
}

// encBatch runs the eight-lane encoders over 65536 values with a common upper
// half, lanes rotating, each compared with an inline model.
func encBatch(w *pbt.Worker, e *encCase) error {
	r := pbt.NewRand(e.Seed, "batch", 0)
	var ds, xs [8]uint32
	var out, want [64]byte
	for k := 0; k < 65536; k++ {
		// lane k%8 takes the value; the others are neighbours of other lengths
		v := e.Hi | uint32(k)
		rnd := r.U64()
		lane := int(rnd>>58) & 7
		for j := range ds {
			// 1 to 4 byte neighbours, two bits of length each
			ds[j] = uint32(rnd*0x9e3779b97f4a7c15>>uint(3*j)) >> (8 * (rnd >> uint(2*j) & 3))
		}
		ds[lane] = v
		prev := uint32(rnd >> 20)
		var ctrl uint16
		pos := 0
		for j, d := range ds {
			l := (bits.Len32(d|1) + 7) / 8
			ctrl |= uint16(l-1) << uint(2*j)
			binary.LittleEndian.PutUint32(want[pos:], d)
			pos += l
		}
		s := prev
		for j, d := range ds {
			s += d
			xs[j] = s
		}
		for i := range encoders {
			f := &encoders[i]
			if f.Lanes != 8 || f.Scalar && k%16 != 0 {
				continue
			}
			in := ds[:]
			if f.Delta {
				in = xs[:]
			}
			w.Calls++
			got := f.F(in, out[:], prev, 0)
			if got != ctrl || !bytes.Equal(out[:pos], want[:pos]) {
				c := &encCase{Xs: append([]uint32{}, in...), Prev: prev, Count: 1}
				err := encCheck(w, c)
				return &pbt.Found{Case: c, Msg: fmt.Sprintf("%s: control value %#x, want %#x: %v", f.Name, got, ctrl, err)}
			}
			for q := range out[:pos] {
				out[q] = ^out[q]
			}
		}
	}
	w.ExtraEval += 65535
	w.ExtraDist += 65535
	return nil
}

// ---- C08: decoders -------------------------------------------------------------

type decCase struct {
	Ctrl  uint16  `json:"ctrl"`
	Data  gen.Hex `json:"data"` // 32 bytes
	Prev  uint32  `json:"prev"`
	Count int     `json:"count"`
	Fit   bool    `json:"fit,omitempty"`   // slices just long enough, no spare capacity
	Batch bool    `json:"batch,omitempty"` // every control value in turn
	Seed  uint64  `json:"seed,omitempty"`
}

func c08() *pbt.Suite {
	reps := pbt.Scale(24, 300)
	return &pbt.Suite{Prop: "C08",
		Rule: "Every decoder (10 functions) is run on each control value, data string, base and partial count, and compared with the reference decoder, including the reported byte count; batches run the eight-at-a-time decoders over all 65536 control values for one data string. A case is non-trivial when the control value names at least two different lengths; each distinct (control, data, base, count) by hash, and each control value of a batch, counts once.",
		Sections: []pbt.Section{
			{Name: "every-control-value", N: 65536 * reps, Make: func(r *pbt.Rand, i int) any {
				return &decCase{Ctrl: uint16(i / reps), Data: gen.Bytes(r, 32), Prev: gen.Base(r, nil), Count: counts[r.N(8)]}
			}},
			{Name: "partial-counts", N: 256 * len(counts) * pbt.Scale(16, 200), Make: func(r *pbt.Rand, i int) any {
				return &decCase{Ctrl: uint16(i&255) | uint16(r.Byte())<<8, Data: gen.Bytes(r, 32), Prev: gen.Base(r, nil), Count: counts[i>>8%len(counts)], Fit: r.Bool()}
			}},
			{Name: "encoded-blocks", N: pbt.Scale(500000, 10000000), Make: func(r *pbt.Rand, i int) any {
				xs := block(r)
				d := ref.Data(xs)
				c := &decCase{Ctrl: ctrlOf(xs), Prev: gen.Base(r, xs), Count: r.N(6), Fit: r.Bool()}
				c.Data = append(d, gen.Bytes(r, 32-len(d))...)
				return c
			}},
			{Name: "source-conditions", N: len(gen.Groups) * pbt.Scale(5000, 50000), Make: func(r *pbt.Rand, i int) any {
				g := gen.Groups[i%len(gen.Groups)]
				c := &decCase{Data: gen.Bytes(r, 32), Prev: g.Number(r), Count: conditionCount(r, g), Fit: r.Bool()}
				g.Put(r, 32, func(at int, v uint32) {
					for k := at; k < 32 && (k == at || v > 0); k++ {
						c.Data[k] = byte(v)
						v >>= 8
					}
				})
				for k := 0; k < 2; k++ {
					b := uint32(r.Byte())
					if r.Bool() {
						b = g.Number(r)
					}
					c.Ctrl |= uint16(b&0xff) << uint(8*k)
				}
				if v := g.Number(r); r.Chance(1, 3) {
					c.Ctrl = uint16(v)
				}
				if r.Chance(1, 3) {
					c.Prev = gen.Base(r, nil)
				}
				return c
			}},
			{Name: "all-controls-batches", N: pbt.Scale(1500, 40000), Make: func(r *pbt.Rand, i int) any {
				return &decCase{Batch: true, Data: gen.Bytes(r, 32), Prev: gen.Base(r, nil), Seed: r.U64()}
			}},
		},
		New: func() any { return &decCase{} },
		Hash: func(c any) uint64 {
			d := c.(*decCase)
			return uint64(pbt.NewHash().Bytes(d.Data).U64(uint64(d.Prev)).U64(uint64(d.Count)).U64(uint64(d.Ctrl)))
		},
		Nontrivial: func(c any) bool {
			d := c.(*decCase)
			return d.Batch || d.Ctrl != 0 && d.Ctrl != 0x5555 && d.Ctrl != 0xaaaa && d.Ctrl != 0xffff
		},
		Labels: func(c any) []string {
			d := c.(*decCase)
			if d.Batch {
				return []string{"batch of 65536 control values"}
			}
			l := []string{}
			if d.Count > 4 {
				l = append(l, "count>4")
			} else {
				l = append(l, fmt.Sprintf("count=%d", d.Count))
			}
			if d.Prev != 0 {
				l = append(l, "base!=0")
			}
			return l
		},
		Shrink: func(c any, try func(any) bool) {
			d := c.(*decCase)
			if d.Batch {
				return
			}
			for _, v := range []uint16{0, d.Ctrl & 0xff, d.Ctrl &^ 0xff} {
				if e := *d; v < d.Ctrl {
					e.Ctrl = v
					if try(&e) {
						return
					}
				}
			}
			for j := 0; j < 16; j++ {
				if e := *d; d.Ctrl>>uint(j)&1 == 1 {
					e.Ctrl &^= 1 << uint(j)
					if try(&e) {
						return
					}
				}
			}
			for i, b := range d.Data {
				for _, v := range []byte{0, 1} {
					if v < b {
						e := *d
						e.Data = append(gen.Hex{}, d.Data...)
						e.Data[i] = v
						if try(&e) {
							return
						}
					}
				}
			}
			if pbt.ShrinkU32(d.Prev, func(p uint32) bool { e := *d; e.Prev = p; return try(&e) }) {
				return
			}
			for k := 0; k < d.Count && k < 5; k++ {
				e := *d
				e.Count = k
				if try(&e) {
					return
				}
			}
		},
		Check: func(w *pbt.Worker, c any) error {
			d := c.(*decCase)
			if d.Batch {
				return decBatch(w, d)
			}
			return decCheck(w, d)
		}}
}

func decCheck(w *pbt.Worker, d *decCase) error {
	var data [96]byte
	copy(data[:], d.Data)
	var out [24]uint32
	for i := range decoders {
		f := &decoders[i]
		n := lanes(f.Lanes, d.Count)
		for half := 0; half < 2; half++ {
			c := d.Ctrl
			if f.Lanes != 8 {
				c = c >> uint(8*half) & 0xff
			} else if half > 0 {
				break
			}
			want, used := ref.Decode([]byte{byte(c), byte(c >> 8)}, data[:], n)
			if f.Delta {
				want = ref.Sums(want, d.Prev)
			}
			for k := range out {
				out[k] = 0xdeadbeef + uint32(k)
			}
			for k := range want {
				out[k] = ^want[k]
			}
			in, dst := data[:], out[:]
			if d.Fit {
				dst = dst[:n:n]
				if f.Scalar {
					in = in[:used:used]
				} else {
					in = in[:32:32]
				}
			}
			w.Calls++
			got := f.F(in, dst, c, d.Prev, d.Count)
			for k := range want {
				if out[k] != want[k] {
					return fmt.Errorf("%s: control %#x: integer %d is %#x, want %#x", f.Name, c, k, out[k], want[k])
				}
			}
			if got >= 0 && got != used {
				return fmt.Errorf("%s: control %#x, count %d: reports %d bytes, want %d", f.Name, c, d.Count, got, used)
			}
			for k := n; f.Lanes == 0 && k < len(out); k++ { // exactly the requested number
				if out[k] != 0xdeadbeef+uint32(k) {
					return fmt.Errorf("%s: count %d wrote integer %d", f.Name, d.Count, k)
				}
			}
		}
	}
	return nil
}

func decBatch(w *pbt.Worker, d *decCase) error {
	var data [96]byte
	copy(data[:], d.Data)
	var out, plain, sums [8]uint32
	for c := 0; c < 65536; c++ {
		pos := 0
		s := d.Prev
		for j := range plain {
			l := c>>uint(2*j)&3 + 1
			plain[j] = binary.LittleEndian.Uint32(data[pos:]) & (^uint32(0) >> uint(32-8*l))
			pos += l
			s += plain[j]
			sums[j] = s
		}
		for i := range decoders {
			f := &decoders[i]
			if f.Lanes != 8 || f.Scalar && c%16 != int(d.Seed&15) {
				continue
			}
			want := &plain
			if f.Delta {
				want = &sums
			}
			for j := range out {
				out[j] = ^want[j]
			}
			w.Calls++
			f.F(data[:], out[:], uint16(c), d.Prev, 0)
			if out != *want {
				e := &decCase{Ctrl: uint16(c), Data: d.Data, Prev: d.Prev, Count: 1}
				return &pbt.Found{Case: e, Msg: fmt.Sprintf("%s: control %#x gave %#x, want %#x", f.Name, c, out, *want)}
			}
		}
	}
	w.ExtraEval += 65535
	w.ExtraDist += 65531
	return nil
}

//go:build linux && (amd64 || 386)

package main

import (
	"bytes"
	"fmt"

	"verif/harness/gen"
	"verif/harness/mem"
	"verif/harness/pbt"
	"verif/harness/ref"
)

func memSuites() []*pbt.Suite { return []*pbt.Suite{c10(), c20()} }

// memCase is one block for the encoders (Xs) and one for the decoders (Ctrl,
// Data), with a placement: 0 ends at the guard page, 1 begins after it, 2+k at
// offset k in the middle.
type memCase struct {
	Xs    []uint32 `json:"xs"`
	Ctrl  uint16   `json:"ctrl"`
	Data  gen.Hex  `json:"data"`
	Prev  uint32   `json:"prev"`
	Count int      `json:"count"`
	In    int      `json:"in_place"`
	Out   int      `json:"out_place"`
	// extra output space beyond what is needed, which scalar functions leave alone
	Spare int `json:"spare"`
	// claimed capacity beyond mapped memory, for slices at the end
	FakeCap int `json:"fake_cap"`
	// C20: how much too short
	CutIn  int `json:"cut_in,omitempty"`
	CutOut int `json:"cut_out,omitempty"`
}

type arenas struct{ in, out *mem.Arena }

func memOf(w *pbt.Worker) *arenas {
	a, _ := w.Scratch["mem"].(*arenas)
	if a == nil {
		a = &arenas{mem.New(8192), mem.New(8192)}
		w.Scratch["mem"] = a
	}
	return a
}

func offset(place, n, size, align int) int {
	switch place {
	case 0:
		return size - n
	case 1:
		return 0
	}
	return 4096 + (place-2)*align
}

const window = 96

func around(b []byte, lo, hi int, fill bool) error {
	for i := max(0, lo-window); i < min(len(b), hi+window); i++ {
		c := byte(i*167 + 13)
		switch {
		case fill:
			b[i] = c
		case (i < lo || i >= hi) && b[i] != c:
			return fmt.Errorf("byte %d relative to the allowed range of %d bytes", i-lo, hi-lo)
		}
	}
	return nil
}

func genMem(r *pbt.Rand) *memCase {
	c := &memCase{Xs: block(r), Ctrl: uint16(r.U32()), Data: gen.Bytes(r, 32), Prev: gen.Base(r, nil), Count: counts[r.N(10)]}
	c.In, c.Out = 2+r.N(64), 2+r.N(64)
	if r.Chance(3, 4) {
		c.In = r.N(4) / 3
	}
	if r.Chance(3, 4) {
		c.Out = r.N(4) / 3
	}
	if r.Chance(1, 3) {
		c.Spare = r.N(33)
	}
	if r.Chance(1, 3) {
		c.FakeCap = 1 + r.N(64)
	}
	return c
}

func memHash(c any) uint64 {
	m := c.(*memCase)
	h := pbt.NewHash().U32s(m.Xs).Bytes(m.Data).U64(uint64(m.Ctrl)).U64(uint64(m.Prev)).U64(uint64(m.Count))
	return uint64(h.U64(uint64(m.In)).U64(uint64(m.Out)).U64(uint64(m.Spare)).U64(uint64(m.FakeCap)).U64(uint64(m.CutIn)).U64(uint64(m.CutOut)))
}

func memShrink(c any, try func(any) bool) {
	m := c.(*memCase)
	fs := []func(d *memCase){
		func(d *memCase) { d.Xs = make([]uint32, 8) }, func(d *memCase) { d.Data = make([]byte, 32) },
		func(d *memCase) { d.Ctrl = 0 }, func(d *memCase) { d.Prev = 0 }, func(d *memCase) { d.Count = 1 },
		func(d *memCase) { d.Spare = 0 }, func(d *memCase) { d.FakeCap = 0 },
		func(d *memCase) { d.CutIn = min(d.CutIn, 1) }, func(d *memCase) { d.CutOut = min(d.CutOut, 1) },
		func(d *memCase) { d.CutIn = 0 }, func(d *memCase) { d.CutOut = 0 },
	}
	for j := 0; j < 16; j++ {
		j := j
		fs = append(fs, func(d *memCase) { d.Ctrl &^= 1 << uint(j) })
	}
	for _, f := range fs {
		d := *m
		f(&d)
		if d.CutIn == 0 && d.CutOut == 0 && m.CutIn+m.CutOut > 0 {
			continue
		}
		if memHash(&d) != memHash(m) && try(&d) {
			return
		}
	}
	pbt.ShrinkLanes(m.Xs, func(xs []uint32) bool { d := *m; d.Xs = xs; return try(&d) })
}

func bucket(k int) string {
	return []string{"at the end", "at the beginning", "in the middle"}[min(k, 2)]
}

func c10() *pbt.Suite {
	reps := pbt.Scale(20, 200)
	return &pbt.Suite{Prop: "C10",
		Rule: "Every case runs all ten block encoders on one block and all ten block decoders on one control value and data string, with the slices ending at a guard page, beginning after one, or at an odd offset; inputs are mapped read-only and outputs lie between guard pages and canaries. Eight-at-a-time general and accelerated functions get exactly eight integers and 32 bytes; scalar functions get exactly the encoding (plus, in some cases, spare output that must stay untouched). Results are compared with those on ordinary slices. A case is non-trivial when at least one slice touches a guard page; distinct cases are counted by a 64-bit hash of contents and placement.",
		Sections: []pbt.Section{
			{Name: "every-control-value", N: 65536 * reps, Make: func(r *pbt.Rand, i int) any {
				c := genMem(r)
				c.Ctrl = uint16(i / reps)
				for j := range c.Xs {
					c.Xs[j] = gen.OfLen(r, 1+int(c.Ctrl>>uint(2*j)&3))
				}
				return c
			}},
			{Name: "every-placement", N: 66 * 66 * pbt.Scale(40, 400), Make: func(r *pbt.Rand, i int) any {
				c := genMem(r)
				c.In, c.Out = i%66, i/66%66
				return c
			}},
			{Name: "random", N: pbt.Scale(400000, 8000000), Make: func(r *pbt.Rand, i int) any { return genMem(r) }},
		},
		New: func() any { return &memCase{} }, Hash: memHash, Shrink: memShrink,
		Nontrivial: func(c any) bool { m := c.(*memCase); return m.In < 2 || m.Out < 2 },
		Labels: func(c any) []string {
			m := c.(*memCase)
			l := []string{"in " + bucket(m.In), "out " + bucket(m.Out)}
			if m.Spare > 0 {
				l = append(l, "spare output")
			}
			if m.FakeCap > 0 {
				l = append(l, "capacity beyond mapped memory")
			}
			return l
		},
		Check: func(w *pbt.Worker, c any) error {
			m := c.(*memCase)
			for i := range encoders {
				if err := m.enc(w, &encoders[i]); err != nil {
					return err
				}
			}
			for i := range decoders {
				if err := m.dec(w, &decoders[i]); err != nil {
					return err
				}
			}
			return nil
		}}
}

func (m *memCase) count(l int) int {
	if l == 0 {
		return m.Count
	}
	return l
}

func (m *memCase) enc(w *pbt.Worker, f *encFn) error {
	a := memOf(w)
	n := lanes(f.Lanes, m.count(f.Lanes))
	xs := append(make([]uint32, 0, 16), m.Xs[:n]...)
	want := xs
	if f.Delta {
		want = ref.Diffs(xs, m.Prev)
	}
	data := ref.Data(want)
	size, limit := 32, 32 // bytes of space, bytes that may be written
	if f.Scalar {
		size, limit = len(data)+m.Spare, len(data)
	}
	io, oo := offset(m.In, 4*n, len(a.in.RW), 4), offset(m.Out, size, len(a.out.RW), 1)
	copy(mem.U32(a.in.RW[io:io+4*n]), xs)
	in := mem.U32(a.in.RO[io : io+4*n : io+4*n])
	if n == 0 {
		in = nil
	}
	around(a.out.RW, oo, oo+limit, true)
	out := a.out.RW[oo : oo+size : oo+size]
	if m.FakeCap > 0 {
		if m.In == 0 && n > 0 {
			in = mem.GrowU32(in, m.FakeCap)
		}
		if m.Out == 0 {
			out = mem.Grow(out, m.FakeCap)
		}
	}
	var plain [96]byte
	w.Calls += 2
	wc := f.F(xs, plain[:], m.Prev, m.count(f.Lanes))
	gc := f.F(in, out, m.Prev, m.count(f.Lanes))
	if err := around(a.out.RW, oo, oo+limit, false); err != nil {
		return fmt.Errorf("%s wrote outside its output: %v", f.Name, err)
	}
	for k := 0; k < n; k++ {
		if mem.U32(a.in.RW[io : io+4*n])[k] != m.Xs[k] || xs[k] != m.Xs[k] {
			return fmt.Errorf("%s modified its input", f.Name)
		}
	}
	if wc != gc || !bytes.Equal(out[:len(data)], plain[:len(data)]) {
		return fmt.Errorf("%s depends on where its slices are: control %#x or %#x, bytes % x or % x", f.Name, gc, wc, out[:len(data)], plain[:len(data)])
	}
	return nil
}

func (m *memCase) dec(w *pbt.Worker, f *decFn) error {
	a := memOf(w)
	n := lanes(f.Lanes, m.count(f.Lanes))
	ctrl := m.Ctrl
	if f.Lanes != 8 {
		ctrl &= 0xff
	}
	size := 32
	if f.Scalar {
		size = ref.DataLen([]byte{byte(ctrl), byte(ctrl >> 8)}, n)
	}
	outN := n
	if f.Scalar {
		outN += m.Spare / 4
	}
	io, oo := offset(m.In, size, len(a.in.RW), 1), offset(m.Out, 4*outN, len(a.out.RW), 4)
	copy(a.in.RW[io:io+size], m.Data)
	in := a.in.RO[io : io+size : io+size]
	around(a.out.RW, oo, oo+4*n, true)
	out := mem.U32(a.out.RW[oo : oo+4*outN : oo+4*outN])
	if m.FakeCap > 0 {
		if m.In == 0 {
			in = mem.Grow(in, m.FakeCap)
		}
		if m.Out == 0 && outN > 0 {
			out = mem.GrowU32(out, m.FakeCap)
		}
	}
	var pd [96]byte
	copy(pd[:], m.Data)
	var plain [24]uint32
	w.Calls += 2
	wr := f.F(pd[:], plain[:], ctrl, m.Prev, m.count(f.Lanes))
	gr := f.F(in, out, ctrl, m.Prev, m.count(f.Lanes))
	if err := around(a.out.RW, oo, oo+4*n, false); err != nil {
		return fmt.Errorf("%s wrote outside the %d integers asked for: %v", f.Name, n, err)
	}
	if !bytes.Equal(a.in.RW[io:io+size], m.Data[:size]) || !bytes.Equal(pd[:32], m.Data) {
		return fmt.Errorf("%s modified its input", f.Name)
	}
	for k := 0; k < n; k++ {
		if out[k] != plain[k] || wr != gr {
			return fmt.Errorf("%s depends on where its slices are: integer %d is %#x or %#x (%d or %d bytes)", f.Name, k, out[k], plain[k], gr, wr)
		}
	}
	return nil
}

// ---- C20: undersized slices ----------------------------------------------------

func c20() *pbt.Suite {
	reps := pbt.Scale(6, 60)
	return &pbt.Suite{Prop: "C20",
		Rule: "Every case runs all six scalar encoders on one block and all six scalar decoders on one control value with the input, the output or both shorter than the call needs, every amount of truncation included. The slices have spare capacity: mapped memory holding canaries, or nothing but a guard page, so that any access beyond the length is seen. The call must panic, and not because of a memory fault. Every case is non-trivial (at least one slice is too short); distinct cases are counted by a 64-bit hash.",
		Sections: []pbt.Section{
			{Name: "every-control-value-every-cut", N: 65536 * reps, Make: func(r *pbt.Rand, i int) any {
				c := genMem(r)
				c.Ctrl = uint16(i / reps)
				for j := range c.Xs {
					c.Xs[j] = gen.OfLen(r, 1+int(c.Ctrl>>uint(2*j)&3))
				}
				return cut(r, c)
			}},
			{Name: "random", N: pbt.Scale(400000, 8000000), Make: func(r *pbt.Rand, i int) any { return cut(r, genMem(r)) }},
		},
		New: func() any { return &memCase{} }, Hash: memHash, Shrink: memShrink,
		Labels: func(c any) []string {
			m := c.(*memCase)
			l := []string{}
			if m.CutIn > 0 {
				l = append(l, "input too short")
			}
			if m.CutOut > 0 {
				l = append(l, "output too short")
			}
			if m.In == 0 {
				l = append(l, "capacity is a guard page")
			} else {
				l = append(l, "capacity is mapped memory")
			}
			return l
		},
		Check: func(w *pbt.Worker, c any) error {
			m := c.(*memCase)
			for i := range encoders {
				if f := &encoders[i]; f.Scalar {
					if err := m.shortEnc(w, f); err != nil {
						return err
					}
				}
			}
			for i := range decoders {
				if f := &decoders[i]; f.Scalar {
					if err := m.shortDec(w, f); err != nil {
						return err
					}
				}
			}
			return nil
		}}
}

func cut(r *pbt.Rand, c *memCase) *memCase {
	c.Count = 1 + r.N(4)
	if r.Chance(1, 8) {
		c.Count = 5 + r.N(300)
	}
	c.Spare, c.FakeCap = 0, 0
	c.In = 0
	if r.Bool() {
		c.In = 2 + r.N(16)
	}
	c.Out = c.In
	switch r.N(5) {
	case 0, 1:
		c.CutIn = 1 + r.N(32)
	case 2, 3:
		c.CutOut = 1 + r.N(32)
	default:
		c.CutIn, c.CutOut = 1+r.N(32), 1+r.N(32)
	}
	if r.Bool() { // just short
		c.CutIn, c.CutOut = min(c.CutIn, 1+r.N(2)), min(c.CutOut, 1+r.N(2))
	}
	return c
}

// short runs f and says what is wrong unless it panics in an ordinary way.
func short(f func()) (err error) {
	defer func() {
		p := recover()
		if p == nil {
			err = fmt.Errorf("returned as if it had succeeded")
			return
		}
		if a, ok := p.(interface{ Addr() uintptr }); ok {
			err = fmt.Errorf("accessed memory outside its slices (fault at %#x)", a.Addr())
		} else if e, ok := p.(error); ok && bytes.Contains([]byte(e.Error()), []byte("invalid memory address")) {
			err = fmt.Errorf("accessed memory outside its slices (%v)", e)
		}
	}()
	f()
	return nil
}

func (m *memCase) shortEnc(w *pbt.Worker, f *encFn) error {
	a := memOf(w)
	n := lanes(f.Lanes, m.count(f.Lanes))
	xs := m.Xs[:n]
	want := xs
	if f.Delta {
		want = ref.Diffs(xs, m.Prev)
	}
	full := len(ref.Data(want))
	inN, size := n-min(m.CutIn, n), full-min(m.CutOut, full)
	io, oo := offset(m.In, 4*inN, len(a.in.RW), 4), offset(m.Out, size, len(a.out.RW), 1)
	k := n // integers readable at the input's address
	if m.In == 0 {
		k = inN
	}
	copy(mem.U32(a.in.RW[io:io+4*k]), xs)
	in := mem.U32(a.in.RO[io : io+4*inN])
	around(a.out.RW, oo, oo+size, true)
	out := a.out.RW[oo : oo+size]
	if m.In == 0 {
		if inN > 0 {
			in = mem.GrowU32(in[:inN:inN], 64)
		}
		out = mem.Grow(out[:size:size], 64)
	}
	w.Calls++
	if err := short(func() { f.F(in, out, m.Prev, m.count(f.Lanes)) }); err != nil {
		return fmt.Errorf("%s given %d of %d integers and %d of %d bytes: %v", f.Name, inN, n, size, full, err)
	}
	if err := around(a.out.RW, oo, oo+size, false); err != nil {
		return fmt.Errorf("%s given %d of %d integers and %d of %d bytes wrote outside its output: %v", f.Name, inN, n, size, full, err)
	}
	return nil
}

func (m *memCase) shortDec(w *pbt.Worker, f *decFn) error {
	a := memOf(w)
	n := lanes(f.Lanes, m.count(f.Lanes))
	ctrl := m.Ctrl
	if f.Lanes != 8 {
		ctrl &= 0xff
	}
	full := ref.DataLen([]byte{byte(ctrl), byte(ctrl >> 8)}, n)
	size, outN := full-min(m.CutIn, full), n-min(m.CutOut, n)
	io, oo := offset(m.In, size, len(a.in.RW), 1), offset(m.Out, 4*outN, len(a.out.RW), 4)
	k := 32
	if m.In == 0 {
		k = size
	}
	copy(a.in.RW[io:io+k], m.Data)
	in := a.in.RO[io : io+size]
	around(a.out.RW, oo, oo+4*outN, true)
	out := mem.U32(a.out.RW[oo : oo+4*outN])
	if m.In == 0 {
		in = mem.Grow(in[:size:size], 64)
		if outN > 0 {
			out = mem.GrowU32(out[:outN:outN], 64)
		}
	} else if outN > 0 {
		out = mem.U32(a.out.RW[oo : oo+4*outN+64])[:outN]
	}
	w.Calls++
	if err := short(func() { f.F(in, out, ctrl, m.Prev, m.count(f.Lanes)) }); err != nil {
		return fmt.Errorf("%s given %d of %d bytes and room for %d of %d integers: %v", f.Name, size, full, outN, n, err)
	}
	if err := around(a.out.RW, oo, oo+4*outN, false); err != nil {
		return fmt.Errorf("%s given %d of %d bytes and room for %d of %d integers wrote outside its output: %v", f.Name, size, full, outN, n, err)
	}
	return nil
}

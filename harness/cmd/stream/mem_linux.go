//go:build linux && (amd64 || 386)

package main

import (
	"bytes"
	"fmt"

	"verif/harness/api"
	"verif/harness/gen"
	"verif/harness/mem"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// C09: stream functions on slices that end (or begin) exactly where mapped
// memory does, inputs in read-only memory, canaries around the outputs.

func memSuites() []*pbt.Suite { return []*pbt.Suite{c09(), c21()} }

// memCase is one call of every reader (or writer) with the given placement.
// Places: 0 ends at the guard page, 1 begins after it, 2+k at offset k.
type memCase struct {
	Raw      *gen.Raw `json:"raw,omitempty"` // readers
	Seq      *gen.Seq `json:"seq,omitempty"` // writers
	Base     uint32   `json:"base"`
	In       int      `json:"in_place"`
	Out      int      `json:"out_place"`
	Spare    int      `json:"spare_out"`           // out is this much longer than the count
	FakeCap  int      `json:"fake_cap,omitempty"`  // stream capacity reaching into the guard page
	TightCap bool     `json:"tight_cap,omitempty"` // out capacity equal to its length
}

func arena(w *pbt.Worker, name string, size int) *mem.Arena {
	cls := 1 << 16
	for cls < size+16384 {
		cls *= 4
	}
	key := fmt.Sprint(name, cls)
	a, _ := w.Scratch[key].(*mem.Arena)
	if a == nil {
		a = mem.New(cls)
		w.Scratch[key] = a
	}
	return a
}

// offset of n bytes placed in size bytes.
func offset(place, n, size, align int) int {
	switch place {
	case 0:
		return (size - n) &^ (align - 1)
	case 1:
		return 0
	}
	return 4096 + (place-2)*align
}

const window = 320

func canary(b []byte, lo, hi int, fill bool) error {
	if lo < 0 {
		lo = 0
	}
	if hi > len(b) {
		hi = len(b)
	}
	for i := lo; i < hi; i++ {
		c := byte(i*167 + 13)
		if fill {
			b[i] = c
		} else if b[i] != c {
			return fmt.Errorf("offset %d", i)
		}
	}
	return nil
}

func c09() *pbt.Suite {
	tails := 7
	mkRaw := func(r *pbt.Rand, n, pat int) gen.Raw {
		ctrl := make([]byte, (n+3)/4)
		for i := range ctrl {
			switch pat {
			case 0: // shortest
			case 1:
				ctrl[i] = 0xff
			case 2:
				ctrl[i] = 0x55
			case 3, 4: // long, with a short tail
				if i < len(ctrl)-r.N(8) {
					ctrl[i] = 0xff
				}
			case 5: // short, with a long tail
				if i >= len(ctrl)-r.N(8) {
					ctrl[i] = 0xff
				}
			default:
				ctrl[i] = r.Byte()
			}
		}
		if n%4 != 0 && r.Bool() {
			ctrl[len(ctrl)-1] = r.Byte()
		}
		return gen.Raw{N: n, Ctrl: ctrl, Data: gen.Bytes(r, ref.DataLen(ctrl, n))}
	}
	place := func(r *pbt.Rand, c *memCase) *memCase {
		c.In, c.Out = 2+r.N(64), 2+r.N(64)
		if r.Chance(3, 4) {
			c.In = 0
			if r.Chance(1, 4) {
				c.In = 1
			}
		}
		if r.Chance(3, 4) {
			c.Out = 0
			if r.Chance(1, 4) {
				c.Out = 1
			}
		}
		if r.Chance(1, 4) {
			if c.Spare = r.N(40); r.Chance(1, 4) {
				c.Spare = r.N(1 << uint(r.In(5, 13)))
			}
		}
		if r.Chance(1, 3) && pbt.Config() != "interpose" { // there, capacities are copied
			if c.FakeCap = 1 + r.N(64); r.Chance(1, 4) {
				c.FakeCap = 1 + r.N(1<<uint(r.In(6, 30)))
			}
		}
		c.TightCap = r.Bool()
		if r.Chance(3, 4) {
			c.Base = gen.Base(r, nil)
		}
		return c
	}
	maxN := pbt.Scale(260, 1100)
	reps := pbt.Scale(120, 300)
	raw := func(r *pbt.Rand, w gen.Raw) any { return place(r, &memCase{Raw: &w}) }
	seq := func(r *pbt.Rand, q gen.Seq) any { return place(r, &memCase{Seq: &q}) }
	short := func(r *pbt.Rand, n, pat int) gen.Seq {
		if pat >= len(gen.Patterns) { // long numbers then short ones, and the reverse
			xs := make([]uint32, n)
			k := n - r.N(40)
			for i := range xs {
				l := 4
				if (i >= k) == (pat%2 == 0) {
					l = 1
				}
				xs[i] = gen.OfLen(r, l)
			}
			return gen.Explicit(xs)
		}
		return gen.WithPat(r, pat, n)
	}
	return &pbt.Suite{Prop: "C09",
		Rule: "Every case runs every reader (plain and delta) on one stream, or every writer on one sequence, with the slices placed at the end of mapped memory, at its beginning, or at an odd offset; inputs are mapped read-only, outputs are surrounded by guard pages and canaries, and results are compared with those on ordinary slices. In the interposed build every slice given to an assembly routine is moved so that its capacity ends at a guard page, which covers the writers' own result buffers. A case is non-trivial when a slice ends or begins at a guard page and there is at least one integer; distinct cases are counted by a 64-bit hash of contents and placement.",
		Sections: []pbt.Section{
			{Name: "read-every-count", N: (maxN + 1) * tails * reps, Make: func(r *pbt.Rand, i int) any {
				i /= reps
				return raw(r, mkRaw(r, i/tails, i%tails))
			}},
			{Name: "write-every-count", N: (maxN + 1) * (len(gen.Patterns) + 2) * pbt.Scale(12, 40), Make: func(r *pbt.Rand, i int) any {
				i /= pbt.Scale(12, 40)
				k := len(gen.Patterns) + 2
				return seq(r, short(r, i/k, i%k))
			}},
			{Name: "read-random", N: pbt.Scale(600000, 5000000), Make: func(r *pbt.Rand, i int) any {
				w := mkRaw(r, r.N(1+r.N(400)), r.N(tails))
				if r.Chance(1, 4) {
					w.Trail = gen.Bytes(r, 1+r.N(20))
				}
				if r.Chance(1, 12) {
					w = w.WithRest(r, 8192)
				}
				return raw(r, w)
			}},
			{Name: "write-random", N: pbt.Scale(400000, 3000000), Make: func(r *pbt.Rand, i int) any {
				return seq(r, short(r, r.N(1+r.N(400)), r.N(len(gen.Patterns)+2)))
			}},
			{Name: "read-long", N: pbt.Scale(4000, 60000), Make: func(r *pbt.Rand, i int) any {
				return raw(r, mkRaw(r, r.N(1<<uint(r.In(9, 16))), r.N(tails)))
			}},
			{Name: "write-long", N: pbt.Scale(2000, 30000), Make: func(r *pbt.Rand, i int) any {
				return seq(r, short(r, r.N(1<<uint(r.In(9, 16))), r.N(len(gen.Patterns)+2)))
			}},
			{Name: "read-larger", N: pbt.Scale(60, 600), Workers: 4, Make: func(r *pbt.Rand, i int) any {
				return raw(r, mkRaw(r, r.N(1<<uint(r.In(16, 21))), r.N(tails)))
			}},
			{Name: "write-larger", N: pbt.Scale(60, 600), Workers: 4, Make: func(r *pbt.Rand, i int) any {
				return seq(r, short(r, r.N(1<<uint(r.In(16, 21))), r.N(len(gen.Patterns)+2)))
			}},
		},
		New: func() any { return &memCase{} },
		Hash: func(c any) uint64 {
			m := c.(*memCase)
			h := pbt.NewHash().U64(uint64(m.In)).U64(uint64(m.Out)).U64(uint64(m.Spare)).U64(uint64(m.FakeCap)).U64(uint64(m.Base))
			if m.Raw != nil {
				return uint64(m.Raw.Hash(h))
			}
			return uint64(m.Seq.Hash(h))
		},
		Nontrivial: func(c any) bool {
			m := c.(*memCase)
			n := 0
			if m.Raw != nil {
				n = m.Raw.N
			} else {
				n = m.Seq.N
			}
			return n > 0 && (m.In < 2 || m.Raw != nil && m.Out < 2)
		},
		Labels: func(c any) []string {
			m := c.(*memCase)
			names := []string{"at the end", "at the beginning", "in the middle"}
			p := func(k int) string {
				if k > 2 {
					k = 2
				}
				return names[k]
			}
			if m.Raw != nil {
				l := []string{"read: stream " + p(m.In), "read: out " + p(m.Out), "read " + gen.SizeLabel(m.Raw.N)}
				if m.FakeCap > 0 && m.In == 0 {
					l = append(l, "stream capacity beyond mapped memory")
				}
				return l
			}
			return []string{"write: input " + p(m.In), "write " + gen.SizeLabel(m.Seq.N)}
		},
		Shrink: func(c any, try func(any) bool) {
			m := c.(*memCase)
			if m.Raw != nil {
				if m.Raw.Shrink(func(w gen.Raw) bool { d := *m; d.Raw = &w; return try(&d) }) {
					return
				}
			} else if m.Seq.Shrink(func(q gen.Seq) bool { d := *m; d.Seq = &q; return try(&d) }) {
				return
			}
			for _, f := range []func(d *memCase){
				func(d *memCase) { d.Base = 0 }, func(d *memCase) { d.FakeCap = 0 }, func(d *memCase) { d.Spare = 0 }, func(d *memCase) { d.Spare /= 2 }, func(d *memCase) { d.FakeCap /= 2 },
				func(d *memCase) { d.In = 0 }, func(d *memCase) { d.Out = 0 }, func(d *memCase) { d.Out = 2 }, func(d *memCase) { d.In = 2 },
			} {
				d := *m
				f(&d)
				if d != *m && (d.In != 2 || m.In > 2) && (d.Out != 2 || m.Out > 2) && try(&d) {
					return
				}
			}
		},
		Check: func(w *pbt.Worker, c any) error {
			m := c.(*memCase)
			if m.Raw != nil {
				return m.read(w)
			}
			return m.write(w)
		}}
}

func (m *memCase) read(w *pbt.Worker) error {
	n := m.Raw.N
	st := m.Raw.Stream(64)
	ia := arena(w, "in", len(st))
	io := offset(m.In, len(st), len(ia.RW), 1)
	copy(ia.RW[io:], st)
	in := ia.RO[io : io+len(st) : io+len(st)]
	if m.FakeCap > 0 && m.In == 0 {
		in = mem.Grow(in, m.FakeCap)
	}
	outN := n + m.Spare
	oa := arena(w, "out", 4*outN)
	oo := offset(m.Out, 4*outN, len(oa.RW), 4)
	out := mem.U32(oa.RW[oo : oo+4*outN])
	if m.TightCap {
		out = out[:len(out):len(out)]
	}
	lo, hi := oo, oo+4*n
	plain := outBuf(w, make([]uint32, n))
	try := func(name string, f func(st []byte, out []uint32)) error {
		f(st, plain) // ordinary slices
		window := window + 4*m.Spare
		canary(oa.RW, lo-window, hi+window, true)
		for i := lo; i < hi; i++ {
			oa.RW[i] = 0xA7
		}
		w.Calls += 2
		f(in, out)
		if err := canary(oa.RW, lo-window, lo, false); err != nil {
			return fmt.Errorf("%s wrote before its output (%v of output at %d)", name, err, lo)
		}
		if err := canary(oa.RW, hi, hi+window, false); err != nil {
			return fmt.Errorf("%s wrote after the first %d output elements (%v, they end at %d)", name, n, err, hi)
		}
		if !bytes.Equal(ia.RW[io:io+len(st)], st) {
			return fmt.Errorf("%s modified its input", name)
		}
		if err := api.Diff(out[:n], plain); err != nil {
			return fmt.Errorf("%s depends on where its slices are: %v", name, err)
		}
		return nil
	}
	for _, rd := range api.Readers {
		if err := try(rd.Name, func(st []byte, out []uint32) { rd.F(n, st, out) }); err != nil {
			return err
		}
	}
	for _, rd := range api.DeltaReaders {
		if err := try(rd.Name, func(st []byte, out []uint32) { rd.F(n, st, out, m.Base) }); err != nil {
			return err
		}
	}
	return nil
}

func (m *memCase) write(w *pbt.Worker) error {
	xs := m.Seq.Nums()
	ia := arena(w, "in", 4*len(xs))
	io := offset(m.In, 4*len(xs), len(ia.RW), 4)
	copy(mem.U32(ia.RW[io:io+4*len(xs)]), xs)
	in := mem.U32(ia.RO[io : io+4*len(xs) : io+4*len(xs)])
	if m.FakeCap > 0 && m.In == 0 && len(xs) > 0 {
		in = mem.GrowU32(in, m.FakeCap)
	}
	slack := make([]uint32, len(xs)+32)
	copy(slack, xs)
	plain := slack[:len(xs)]
	try := func(name string, f func(in []uint32) []byte) error {
		w.Calls += 2
		want := f(plain)
		got := f(in)
		if err := api.Diff(plain, xs); err != nil {
			return fmt.Errorf("%s modified its input: %v", name, err)
		}
		if err := api.Diff(mem.U32(ia.RW[io:io+4*len(xs)]), xs); err != nil {
			return fmt.Errorf("%s modified its input: %v", name, err)
		}
		if !bytes.Equal(got, want) {
			return fmt.Errorf("%s depends on where its input is: %v", name, api.DiffBytes(got, want))
		}
		return nil
	}
	for _, wr := range api.Writers {
		if err := try(wr.Name, wr.F); err != nil {
			return err
		}
	}
	for _, wr := range api.DeltaWriters {
		if err := try(wr.Name, func(in []uint32) []byte { return wr.F(in, m.Base) }); err != nil {
			return err
		}
	}
	return nil
}

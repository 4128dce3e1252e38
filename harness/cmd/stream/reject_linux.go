//go:build linux && (amd64 || 386)

package main

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"

	"verif/harness/api"
	"verif/harness/gen"
	"verif/harness/mem"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// C21: the portable readers on streams and outputs of which nothing is known.

type anyCase struct {
	Count  int     `json:"count"`
	Stream gen.Hex `json:"stream"`
	Out    int     `json:"out"` // length and capacity of the output
	Base   uint32  `json:"base"`
	In     int     `json:"in_place"`  // as in memCase
	At     int     `json:"out_place"` //
	Spare  int     `json:"spare"`     // capacity of the stream beyond its length
}

// complete says whether the stream holds count integers.
func (c *anyCase) complete() bool {
	if c.Count/4 > len(c.Stream) {
		return false
	}
	k := (c.Count + 3) / 4
	return len(c.Stream) >= k && len(c.Stream)-k >= ref.DataLen(c.Stream[:k], c.Count)
}

func c21() *pbt.Suite {
	ctrls := func(r *pbt.Rand, n, pat int) []byte {
		c := make([]byte, n)
		for i := range c {
			switch pat {
			case 0:
			case 1:
				c[i] = 0xff
			case 2: // the end is longer
				if i >= n-r.N(5) {
					c[i] = 0xff
				}
			case 3: // the end is shorter
				if i < n-r.N(5) {
					c[i] = 0xff
				}
			default:
				c[i] = r.Byte()
			}
		}
		return c
	}
	mk := func(r *pbt.Rand, n, pat int) *anyCase {
		c := &anyCase{Count: n, Out: n, In: 2 + r.N(16), At: 2 + r.N(16)}
		k := ctrls(r, (n+3)/4, pat)
		c.Stream = append(append(gen.Hex{}, k...), gen.Bytes(r, ref.DataLen(k, n))...)
		if r.Bool() {
			c.In = 0
		}
		if r.Chance(2, 3) {
			c.At = 0
		}
		if c.In != 0 && r.Chance(3, 4) {
			c.Spare = 1 + r.N(100)
		}
		if r.Chance(3, 4) {
			c.Base = gen.Base(r, nil)
		}
		return c
	}
	cut := func(c *anyCase, k int) *anyCase {
		c.Stream = c.Stream[:max(0, len(c.Stream)-k)]
		return c
	}
	maxN := pbt.Scale(70, 300)
	type pair struct{ n, cut int }
	var streams, outs []pair
	for n := 0; n <= maxN; n++ {
		for k := 0; k <= (n+3)/4+4*n; k++ {
			streams = append(streams, pair{n, k})
		}
		for k := 0; k <= n; k++ {
			outs = append(outs, pair{n, k})
		}
	}
	reps := pbt.Scale(40, 40)
	return &pbt.Suite{Prop: "C21",
		Rule: "Every case calls the scalar readers, plain and delta (on a processor without AVX the general ones as well), with some count, some bytes and an output of some length, the stream at the end of mapped memory or with (readable) spare capacity behind it. If the bytes hold the count's integers and the output is long enough the call must return them, otherwise it must panic, and not because of a memory fault; in either case the stream and the memory around the output stay as they were. A case is non-trivial when the stream or the output is too small; distinct cases are counted by a 64-bit hash.",
		Sections: []pbt.Section{
			{Name: "every-cut-of-the-stream", N: len(streams) * reps, Make: func(r *pbt.Rand, i int) any {
				p := streams[i/reps]
				return cut(mk(r, p.n, i%reps%6), p.cut)
			}},
			{Name: "every-cut-of-the-output", N: len(outs) * reps, Make: func(r *pbt.Rand, i int) any {
				p := outs[i/reps]
				c := mk(r, p.n, i%reps%6)
				c.Out -= p.cut
				return c
			}},
			{Name: "just-too-small", N: pbt.Scale(700000, 6000000), Make: func(r *pbt.Rand, i int) any {
				c := mk(r, r.N(1<<uint(r.In(2, 11))), r.N(6))
				switch r.N(8) {
				case 0:
				case 1, 2:
					c.Out = max(0, c.Out-1-r.N(3))
				case 3: // the count is too large
					c.Count += 1 + r.N(40)
					c.Out = c.Count
				case 4:
					cut(c, 1+r.N(20))
					c.Out = max(0, c.Out-1-r.N(40))
				default:
					cut(c, 1+r.N(3))
				}
				return c
			}},
			{Name: "any-bytes", N: pbt.Scale(1200000, 10000000), Make: func(r *pbt.Rand, i int) any {
				c := mk(r, 0, 0)
				c.Stream = gen.Bytes(r, r.N(1<<uint(r.In(1, 10))))
				if r.Bool() { // few bits set: more integers fit
					for j := range c.Stream {
						c.Stream[j] &= r.Byte() & r.Byte()
					}
				}
				c.Count = r.N(len(c.Stream) + 2)
				if r.Chance(1, 20) {
					c.Count = []int{1 << 20, 1<<31 - 40, 1<<31 - 19, 1<<31 - 16, 1<<30 + 5, 1000000007}[r.N(6)]
				}
				if c.Out = c.Count; r.Chance(1, 5) || c.Out > 1<<16 {
					c.Out = r.N(min(c.Count, 1<<12) + 9)
				}
				return c
			}},
			{Name: "far-too-large-counts", N: pbt.Scale(60000, 600000), Make: func(r *pbt.Rand, i int) any {
				// a complete stream, but for a count that has more bits
				c := mk(r, r.N(1<<uint(r.In(0, 9))), r.N(6))
				switch e := r.In(6, strconv.IntSize-2); {
				case r.Chance(1, 8):
					c.Count = math.MaxInt - r.N(70)
				case r.Chance(1, 8): // a negative one, were it 32 or 63 bits long
					c.Count = max(0, 1<<uint(e)-1-r.N(70))
				default:
					c.Count += 1 << uint(e)
				}
				if r.Chance(1, 4) {
					c.Out += r.N(64)
				}
				return c
			}},
			{Name: "long", N: pbt.Scale(1500, 20000), Make: func(r *pbt.Rand, i int) any {
				c := mk(r, r.N(1<<uint(r.In(11, 17))), r.N(6))
				if k := r.N(4); k > 0 {
					cut(c, 1+r.N(1<<uint(r.In(0, 15))))
				} else if r.Bool() {
					c.Out = max(0, c.Out-1-r.N(1<<uint(r.In(0, 15))))
				}
				return c
			}},
		},
		New: func() any { return &anyCase{} },
		Hash: func(c any) uint64 {
			a := c.(*anyCase)
			return uint64(pbt.NewHash().U64(uint64(a.Count)).Bytes(a.Stream).U64(uint64(a.Out)).U64(uint64(a.Base)).U64(uint64(a.In)).U64(uint64(a.At)).U64(uint64(a.Spare)))
		},
		Nontrivial: func(c any) bool { a := c.(*anyCase); return a.Out < a.Count || !a.complete() },
		Labels: func(c any) []string {
			a := c.(*anyCase)
			l := []string{}
			switch k := (a.Count + 3) / 4; {
			case a.complete():
				l = append(l, "stream complete")
			case len(a.Stream) < k:
				l = append(l, "stream without all its control bytes")
			default:
				l = append(l, "stream without all its data bytes")
			}
			if a.Out < a.Count {
				l = append(l, "output too short")
			}
			return l
		},
		Shrink: func(c any, try func(any) bool) {
			a := c.(*anyCase)
			var ds []anyCase
			add := func(f func(d *anyCase)) { d := *a; f(&d); ds = append(ds, d) }
			for _, k := range []int{64, 16, 4, 1} {
				if a.Count >= k {
					add(func(d *anyCase) { d.Count -= k })
					add(func(d *anyCase) { d.Count -= k; d.Out = max(0, d.Out-k) })
					if len(a.Stream) >= k {
						add(func(d *anyCase) { d.Count -= k; d.Out = max(0, d.Out-k); d.Stream = d.Stream[:len(d.Stream)-k] })
					}
				}
				if len(a.Stream) >= k {
					add(func(d *anyCase) { d.Stream = d.Stream[:len(d.Stream)-k] })
					add(func(d *anyCase) { d.Stream = d.Stream[k:] })
				}
			}
			for i, b := range a.Stream {
				if b != 0 && len(a.Stream) < 200 {
					add(func(d *anyCase) { d.Stream = append(gen.Hex{}, a.Stream...); d.Stream[i] = 0 })
				}
			}
			if a.Base != 0 {
				add(func(d *anyCase) { d.Base = 0 })
			}
			if a.Spare != 0 {
				add(func(d *anyCase) { d.Spare = 0 })
			}
			for i := range ds {
				if try(&ds[i]) {
					return
				}
			}
		},
		Check: func(w *pbt.Worker, c any) error { return c.(*anyCase).check(w) }}
}

// outcome runs f and says whether it panicked, and whether the panic was not
// an ordinary one.
func outcome(f func()) (panicked bool, err error) {
	defer func() {
		p := recover()
		if p == nil {
			return
		}
		panicked = true
		if a, ok := p.(interface{ Addr() uintptr }); ok {
			err = fmt.Errorf("accessed memory outside its slices (fault at %#x)", a.Addr())
		} else if e, ok := p.(error); ok && strings.Contains(e.Error(), "invalid memory address") {
			err = fmt.Errorf("accessed memory outside its slices (%v)", e)
		}
	}()
	f()
	return
}

func (c *anyCase) check(w *pbt.Worker) error {
	st := []byte(c.Stream)
	ia := arena(w, "in", len(st)+256)
	io := offset(c.In, len(st), len(ia.RW), 1)
	if c.In != 0 {
		s := ia.RW[io+len(st) : io+len(st)+c.Spare] // what an access beyond the length would find
		for i := range s {
			s[i] = 0x11
		}
	}
	copy(ia.RW[io:], st)
	in := ia.RO[io : io+len(st) : io+len(st)]
	in = mem.Grow(in, c.Spare)
	oa := arena(w, "out", 4*c.Out)
	oo := offset(c.At, 4*c.Out, len(oa.RW), 4)
	out := mem.U32(oa.RW[oo : oo+4*c.Out])
	out = out[:len(out):len(out)]
	lo, hi := oo, oo+4*c.Out
	good := c.complete() && c.Out >= c.Count
	var want, deltas []uint32
	if good {
		k := (c.Count + 3) / 4
		want, _ = ref.Decode(st[:k], st[k:], c.Count)
		deltas = ref.Sums(want, c.Base)
	}
	try := func(name string, want []uint32, f func()) error {
		canary(oa.RW, lo-window, hi+window, true)
		w.Calls++
		panicked, err := outcome(f)
		switch {
		case err != nil:
			return fmt.Errorf("%s %v", name, err)
		case good && panicked:
			return fmt.Errorf("%s panicked on a complete stream", name)
		case !good && !panicked && c.Out < c.Count:
			return fmt.Errorf("%s returned as if it had succeeded although the output is too short", name)
		case !good && !panicked:
			return fmt.Errorf("%s returned as if it had succeeded although the stream is incomplete", name)
		}
		if err := canary(oa.RW, lo-window, lo, false); err != nil {
			return fmt.Errorf("%s wrote before its output (%v of output at %d)", name, err, lo)
		}
		if err := canary(oa.RW, hi, hi+window, false); err != nil {
			return fmt.Errorf("%s wrote after its output (%v, it ends at %d)", name, err, hi)
		}
		if !bytes.Equal(ia.RW[io:io+len(st)], st) {
			return fmt.Errorf("%s modified its input", name)
		}
		if good {
			if err := api.Diff(out[:c.Count], want); err != nil {
				return fmt.Errorf("%s: %v", name, err)
			}
		}
		return nil
	}
	for _, rd := range api.Readers {
		if !strings.HasSuffix(rd.Name, "Fast") && (!api.FastDecode || strings.HasSuffix(rd.Name, "Scalar")) {
			if err := try(rd.Name, want, func() { rd.F(c.Count, in, out) }); err != nil {
				return err
			}
		}
	}
	for _, rd := range api.DeltaReaders {
		if !strings.HasSuffix(rd.Name, "Fast") && (!api.FastDecode || strings.HasSuffix(rd.Name, "Scalar")) {
			if err := try(rd.Name, deltas, func() { rd.F(c.Count, in, out, c.Base) }); err != nil {
				return err
			}
		}
	}
	return nil
}

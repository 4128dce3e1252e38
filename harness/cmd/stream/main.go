// Command stream decides the stream properties C01 to C06 (and, where guard
// pages exist, C09) over generated inputs.
package main

import (
	"bytes"
	"fmt"
	"strconv"

	"verif/harness/api"
	"verif/harness/gen"
	"verif/harness/pbt"
	"verif/harness/ref"
)

func main() { Main() }

// Main is main for cmd/plugin.
func Main() {
	s := []*pbt.Suite{c01(), c02(), c03(), c04(), c05(), c06()}
	s = append(s, memSuites()...)
	pbt.Main(s...)
}

// ---- sequences -------------------------------------------------------------

type seqCase struct {
	Seq  gen.Seq `json:"seq"`
	Base uint32  `json:"base"`
	Cuts []int   `json:"cuts,omitempty"` // ascending positions
	Sel  uint64  `json:"sel,omitempty"`  // which writer and reader each part uses
}

func newSeqCase() any { return &seqCase{} }

func seqHash(delta bool) func(any) uint64 {
	return func(c any) uint64 {
		s := c.(*seqCase)
		h := s.Seq.Hash(pbt.NewHash())
		if delta {
			h = h.U64(uint64(s.Base))
			for _, k := range s.Cuts {
				h = h.U64(uint64(k))
			}
		}
		return uint64(h)
	}
}

func seqLabels(c any) []string {
	s := c.(*seqCase)
	l := []string{gen.SizeLabel(s.Seq.N), fmt.Sprintf("n mod 4 = %d", s.Seq.N%4)}
	if s.Seq.Pat >= 0 {
		l = append(l, "pattern "+gen.Patterns[s.Seq.Pat])
	}
	if s.Base != 0 {
		l = append(l, "base!=0")
	}
	if len(s.Cuts) > 0 {
		l = append(l, "chained parts")
	}
	return l
}

func seqShrink(c any, try func(any) bool) {
	s := c.(*seqCase)
	done := s.Seq.Shrink(func(q gen.Seq) bool {
		d := *s
		d.Seq = q
		d.Cuts = nil
		if try(&d) {
			return true
		}
		if len(s.Cuts) == 0 {
			return false
		}
		d.Cuts = nil
		for _, k := range s.Cuts {
			if k <= q.N {
				d.Cuts = append(d.Cuts, k)
			}
		}
		return try(&d)
	})
	if done {
		return
	}
	for i := range s.Cuts {
		d := *s
		d.Cuts = append(append([]int{}, s.Cuts[:i]...), s.Cuts[i+1:]...)
		if try(&d) {
			return
		}
		d.Cuts = append([]int{}, s.Cuts...)
		if d.Cuts[i] > 0 && (i == 0 || d.Cuts[i-1] < d.Cuts[i]) {
			d.Cuts[i]--
			if try(&d) {
				return
			}
		}
	}
	pbt.ShrinkU32(s.Base, func(b uint32) bool { d := *s; d.Base = b; return try(&d) })
}

// sizes near powers of two, beyond what the repository's own tests draw, and
// sizes next to constants of the sources.
func bigSizes() []int {
	top := 24
	if pbt.Thorough() {
		top = 26
	}
	if strconv.IntSize == 32 {
		top = 20
	}
	if slow() {
		top = 15
	}
	var s []int
	for e := 12; e <= top; e++ {
		for _, d := range []int{-33, -17, -8, -5, -4, -1, 0, 1, 3, 4, 5, 9, 16, 31, 32, 36} {
			if e >= 18 && d != -1 && d != 0 && d != 3 && d != 36 {
				continue
			}
			s = append(s, 1<<uint(e)+d)
		}
	}
	for _, n := range []int{5000, 9999, 10000, 99999, 100000, 100003, 250000, 655360, 999999, 1000000, 1000001, 1048579, 1200000, 1500000, 2000000, 3000001} {
		if n <= 1<<uint(top) {
			s = append(s, n)
		}
	}
	return s
}

func slow() bool { return pbt.Slow() }

// bigRandom is the binary order of magnitude of the largest random counts.
func bigRandom() int {
	if slow() {
		return 14
	}
	return pbt.Scale(21, 23)
}

func dictSizes() []int {
	lim := uint32(1 << 22)
	if slow() {
		lim = 1 << 13
	}
	var s []int
	seen := map[int]bool{}
	for _, v := range gen.Dict {
		for _, m := range []uint32{v, v * 4, v / 4, v * 8, v / 8} {
			for d := -1; d <= 1; d++ {
				if n := int(m) + d; m <= lim && n > 0 && !seen[n] {
					seen[n] = true
					s = append(s, n)
				}
			}
		}
	}
	for _, n := range s { // with something else besides
		for k := 0; n <= 1<<12 && k < 5; k++ {
			s = append(s, n)
		}
	}
	return s
}

// conditionSize is a count for a case made after condition i of the sources.
func conditionSize(r *pbt.Rand, i int) int {
	g := gen.Groups[i%len(gen.Groups)]
	n := g.Span() + r.N(1<<uint(r.In(1, 9)))
	if v := g.Number(r); (r.Chance(1, 6) || len(g.Num) > 0 && r.Bool()) && v < 1<<13 {
		if n = int(v); r.Chance(1, 3) {
			n += r.N(n + 1)
		}
	}
	return n
}

// seqSections are the campaigns shared by the properties over sequences; fill
// completes a case (base, cuts).
func seqSections(heavy int, fill func(r *pbt.Rand, c *seqCase)) []pbt.Section {
	mk := func(r *pbt.Rand, q gen.Seq) any {
		c := &seqCase{Seq: q}
		fill(r, c)
		return c
	}
	np := len(gen.Patterns)
	big, dict := bigSizes(), dictSizes()
	alphaN := len(gen.Alphabet) * len(gen.Alphabet) * len(gen.Alphabet) * len(gen.Alphabet)
	smallMax := pbt.Scale(320, 700)
	lens := []int{5, 8, 9, 12, 16, 17, 21, 24, 31, 32, 33, 36, 44, 47, 48, 52, 64, 68, 75}
	reps := pbt.Scale(heavy, 12*heavy)
	sweep := pbt.Scale(3, 12)
	return []pbt.Section{
		{Name: "every-count-every-pattern", N: (smallMax + 1) * np * reps, Make: func(r *pbt.Rand, i int) any {
			i /= reps
			return mk(r, gen.WithPat(r, i%np, i/np))
		}},
		{Name: "one-odd-length", N: len(lens) * 80 * 16 * sweep, Make: func(r *pbt.Rand, i int) any {
			i /= sweep
			n := lens[i%len(lens)]
			i /= len(lens)
			a, b, k := i%4, i/4%4, i/16
			xs := make([]uint32, n)
			for j := range xs {
				xs[j] = gen.OfLen(r, a+1)
			}
			xs[k%n] = gen.OfLen(r, b+1)
			return mk(r, gen.Explicit(xs))
		}},
		{Name: "byte-alphabet-every-lane", N: alphaN * sweep, Make: func(r *pbt.Rand, i int) any {
			i /= sweep
			var x uint32
			for j, k := 0, i; j < 4; j++ {
				x = x<<8 | uint32(gen.Alphabet[k%len(gen.Alphabet)])
				k /= len(gen.Alphabet)
			}
			xs := make([]uint32, 40+r.N(40)) // bulk, pair and tail code all see it in each lane
			other := gen.OfLen(r, 1+r.N(4))
			for j := range xs {
				xs[j] = other
			}
			k := r.N(len(xs))
			xs[k] = x
			for j := 1; j < 9 && k+9*j < len(xs); j++ {
				xs[k+9*j] = x
			}
			for j := 1; j < 9 && k-9*j >= 0; j++ {
				xs[k-9*j] = x
			}
			return mk(r, gen.Explicit(xs))
		}},
		{Name: "random", N: pbt.Scale(150000*heavy, 1500000*heavy), Make: func(r *pbt.Rand, i int) any {
			n := r.N(80)
			switch r.N(10) {
			case 0, 1, 2:
				n = r.N(400)
			case 3:
				n = r.N(3000)
			}
			return mk(r, gen.Random(r, n))
		}},
		{Name: "every-count", N: pbt.Scale(4500, 20000), Make: func(r *pbt.Rand, i int) any { return mk(r, gen.Random(r, i)) }},
		{Name: "source-constants-as-counts", N: len(dict), Workers: 4, Make: func(r *pbt.Rand, i int) any { return mk(r, gen.Random(r, dict[i])) }},
		{Name: "source-conditions", N: len(gen.Groups) * pbt.Scale(400, 4000), Make: func(r *pbt.Rand, i int) any {
			c := mk(r, gen.SeqOf(r, i, conditionSize(r, i)))
			if r.Bool() {
				c.(*seqCase).Base = gen.Groups[i%len(gen.Groups)].Number(r)
			}
			return c
		}},
		{Name: "large", N: len(big), Workers: 4, Make: func(r *pbt.Rand, i int) any { return mk(r, gen.Random(r, big[i])) }},
		{Name: "large-random", N: pbt.Scale(40, 400), Workers: 4, Make: func(r *pbt.Rand, i int) any {
			return mk(r, gen.Random(r, r.N(1<<uint(r.In(10, bigRandom())))))
		}},
		{Name: "huge", N: len(hugeSizes()), Workers: 1, Make: func(r *pbt.Rand, i int) any {
			return &seqCase{Seq: gen.Seq{N: hugeSizes()[i], Pat: gen.Huge}, Base: 0xfffffff0}
		}},
	}
}

func randCuts(r *pbt.Rand, n int) []int {
	if n < 2 || n > 1<<16 || r.Chance(1, 3) {
		return nil
	}
	k := 1 + r.N(4)
	var cuts []int
	pos := 0
	for ; k > 0; k-- {
		pos += r.N((n-pos)/2 + 2)
		if pos > n {
			break
		}
		cuts = append(cuts, pos)
	}
	return cuts
}

func plainFill(r *pbt.Rand, c *seqCase) { c.Sel = r.U64() }
func deltaFill(r *pbt.Rand, c *seqCase) {
	c.Sel = r.U64()
	c.Base = gen.Base(r, c.Seq.Nums())
}
func chainFill(r *pbt.Rand, c *seqCase) {
	deltaFill(r, c)
	c.Cuts = randCuts(r, c.Seq.N)
}

// outBuf returns n integers that all differ from want, with slack behind them.
func outBuf(w *pbt.Worker, want []uint32) []uint32 {
	b, _ := w.Scratch["out"].([]uint32)
	if cap(b) < len(want)+64 {
		b = make([]uint32, len(want)+len(want)/4+64)
		w.Scratch["out"] = b
	}
	b = b[:len(want)]
	for i, x := range want {
		b[i] = ^x
	}
	return b
}

const mixedRule = "A case is non-trivial when it has at least 5 integers (more than one control byte) and at least two different encoded lengths; distinct cases are counted by a 64-bit hash of the whole input."

const seqRule = "Sequences come from enumerations (every count x every pattern, one odd-length integer at every position, every word over a 13-letter byte alphabet, every count up to thousands, counts next to powers of two and to constants found in the sources) and random campaigns over 19 patterns. " + mixedRule

func nontrivSeq(delta bool) func(any) bool {
	return func(c any) bool {
		s := c.(*seqCase)
		if s.Seq.N > hugeMin {
			return true
		}
		if delta {
			return gen.Mixed(ref.Diffs(s.Seq.Nums(), s.Base))
		}
		return gen.Mixed(s.Seq.Nums())
	}
}

func checkRead(w *pbt.Worker, who string, want []uint32, read func(out []uint32)) error {
	out := outBuf(w, want)
	w.Calls++
	read(out)
	if err := api.Diff(out, want); err != nil {
		return fmt.Errorf("%s: %v", who, err)
	}
	return nil
}

func c01() *pbt.Suite {
	return &pbt.Suite{Prop: "C01", Rule: "Every case is run through every pairing of writer and reader. " + seqRule,
		Sections: seqSections(6, plainFill), New: newSeqCase, Hash: seqHash(false), Labels: seqLabels, Shrink: seqShrink,
		Nontrivial: nontrivSeq(false),
		Check: func(w *pbt.Worker, c any) error {
			if n := c.(*seqCase).Seq.N; n > hugeMin {
				return hugeRoundTrip(w, n)
			}
			xs := c.(*seqCase).Seq.Nums()
			for _, wr := range api.Writers {
				w.Calls++
				s := wr.F(xs)
				for _, rd := range api.Readers {
					if err := checkRead(w, wr.Name+" -> "+rd.Name, xs, func(out []uint32) { rd.F(len(xs), s, out) }); err != nil {
						return err
					}
				}
			}
			return nil
		}}
}

func c02() *pbt.Suite {
	return &pbt.Suite{Prop: "C02", Rule: "Every case is run through every pairing of delta writer and delta reader with its base (0, MaxUint32, above, at and below the first integer, boundary, dictionary, random), and cut into consecutive streams each based on the last value before it. " + seqRule + " Lengths are those of the differences.",
		Sections: seqSections(6, chainFill), New: newSeqCase, Hash: seqHash(true), Labels: seqLabels, Shrink: seqShrink,
		Nontrivial: nontrivSeq(true),
		Check: func(w *pbt.Worker, c any) error {
			if n := c.(*seqCase).Seq.N; n > hugeMin {
				return hugeDeltaRoundTrip(w, n)
			}
			s := c.(*seqCase)
			xs := s.Seq.Nums()
			for _, wr := range api.DeltaWriters {
				w.Calls++
				st := wr.F(xs, s.Base)
				for _, rd := range api.DeltaReaders {
					if err := checkRead(w, wr.Name+" -> "+rd.Name, xs, func(out []uint32) { rd.F(len(xs), st, out, s.Base) }); err != nil {
						return err
					}
				}
			}
			if len(s.Cuts) == 0 {
				return nil
			}
			type part struct {
				xs   []uint32
				base uint32
				st   []byte
				who  string
			}
			var parts []part
			lo, base, sel := 0, s.Base, s.Sel
			for k := 0; k <= len(s.Cuts); k++ {
				hi := len(xs)
				if k < len(s.Cuts) {
					hi = s.Cuts[k]
				}
				wr := api.DeltaWriters[sel%uint64(len(api.DeltaWriters))]
				sel = sel>>3 | sel<<61
				w.Calls++
				parts = append(parts, part{xs[lo:hi], base, wr.F(xs[lo:hi:hi], base), wr.Name})
				if hi > lo {
					base = xs[hi-1]
				}
				lo = hi
			}
			base = s.Base
			for k, p := range parts { // decode using only what has been decoded
				rd := api.DeltaReaders[sel%uint64(len(api.DeltaReaders))]
				sel = sel>>3 | sel<<61
				out := outBuf(w, p.xs)
				w.Calls++
				rd.F(len(p.xs), p.st, out, base)
				if err := api.Diff(out, p.xs); err != nil {
					return fmt.Errorf("part %d (%s -> %s, base %#x): %v", k, p.who, rd.Name, base, err)
				}
				if len(out) > 0 {
					base = out[len(out)-1]
				}
			}
			return nil
		}}
}

func c03() *pbt.Suite {
	return &pbt.Suite{Prop: "C03", Rule: "Every writer's output is compared byte for byte with the reference encoder. " + seqRule,
		Sections: seqSections(10, plainFill), New: newSeqCase, Hash: seqHash(false), Labels: seqLabels, Shrink: seqShrink,
		Nontrivial: nontrivSeq(false),
		Check: func(w *pbt.Worker, c any) error {
			if n := c.(*seqCase).Seq.N; n > hugeMin {
				return hugeBytes(w, n)
			}
			xs := c.(*seqCase).Seq.Nums()
			want := ref.Encode(xs)
			for _, wr := range api.Writers {
				w.Calls++
				if got := wr.F(xs); !bytes.Equal(got, want) {
					return fmt.Errorf("%s: %v", wr.Name, api.DiffBytes(got, want))
				}
			}
			return nil
		}}
}

func c04() *pbt.Suite {
	return &pbt.Suite{Prop: "C04", Rule: "Every delta writer's output is compared byte for byte with the reference encoding of the differences modulo 2^32. " + seqRule + " Lengths are those of the differences.",
		Sections: seqSections(10, deltaFill), New: newSeqCase, Hash: seqHash(true), Labels: seqLabels, Shrink: seqShrink,
		Nontrivial: nontrivSeq(true),
		Check: func(w *pbt.Worker, c any) error {
			if n := c.(*seqCase).Seq.N; n > hugeMin {
				return hugeDeltaBytes(w, n)
			}
			s := c.(*seqCase)
			xs := s.Seq.Nums()
			want := ref.Encode(ref.Diffs(xs, s.Base))
			for _, wr := range api.DeltaWriters {
				w.Calls++
				if got := wr.F(xs, s.Base); !bytes.Equal(got, want) {
					return fmt.Errorf("%s: %v", wr.Name, api.DiffBytes(got, want))
				}
			}
			return nil
		}}
}

// ---- raw streams -----------------------------------------------------------

type rawCase struct {
	Raw  gen.Raw `json:"raw"`
	Base uint32  `json:"base"`
}

func rawSections(fill func(r *pbt.Rand, c *rawCase)) []pbt.Section {
	mk := func(r *pbt.Rand, w gen.Raw) any {
		c := &rawCase{Raw: w}
		fill(r, c)
		return c
	}
	big, dict := bigSizes(), dictSizes()
	groups := pbt.Scale(14, 26)
	rest := 25 // log2 of the most bytes after a stream
	if slow() {
		rest = 16
	}
	reps := pbt.Scale(10, 60)
	return []pbt.Section{
		{Name: "every-control-byte-every-position", N: 256 * groups * 4 * reps, Make: func(r *pbt.Rand, i int) any {
			v := byte(i)
			i >>= 8
			pos, tail := i%groups, i/groups%4
			n := 4*(pos+1+r.N(groups-pos)) + tail
			ctrl := gen.Ctrls(r, (n+3)/4)
			ctrl[pos] = v
			return mk(r, gen.RawOf(r, n, ctrl))
		}},
		{Name: "partial-last-group", N: 256 * 4 * 24 * reps, Make: func(r *pbt.Rand, i int) any {
			v := byte(i)
			i >>= 8
			n := 4*(i/4%24) + i%4
			ctrl := gen.Ctrls(r, (n+3)/4)
			if len(ctrl) > 0 {
				ctrl[len(ctrl)-1] = v
			}
			return mk(r, gen.RawOf(r, n, ctrl))
		}},
		{Name: "every-count", N: pbt.Scale(3000, 8000) * reps, Make: func(r *pbt.Rand, i int) any { return mk(r, gen.RandomRaw(r, i/reps)) }},
		{Name: "random", N: pbt.Scale(3000000, 25000000), Make: func(r *pbt.Rand, i int) any {
			n := r.N(80)
			switch r.N(10) {
			case 0, 1, 2:
				n = r.N(400)
			case 3:
				n = r.N(2500)
			}
			w := gen.RandomRaw(r, n)
			if r.Chance(1, 8) {
				w = w.WithRest(r, 1024)
			}
			return mk(r, w)
		}},
		{Name: "encoded-then-widened", N: pbt.Scale(300000, 4000000), Make: func(r *pbt.Rand, i int) any {
			// integers of known patterns, some stored in more bytes than needed
			q := gen.Random(r, r.N(200))
			xs := q.Nums()
			ctrl := make([]byte, (len(xs)+3)/4)
			var data []byte
			widen := r.N(4)
			for j, x := range xs {
				l := ref.ByteLen(x)
				if r.N(4) < widen {
					l = r.In(l, 4)
				}
				ctrl[j/4] |= byte(l-1) << uint(2*(j%4))
				for b := 0; b < l; b++ {
					data = append(data, byte(x>>uint(8*b)))
				}
			}
			w := gen.Raw{N: len(xs), Ctrl: ctrl, Data: data}
			if r.Bool() {
				w.Trail = gen.Bytes(r, r.N(48))
			}
			return mk(r, w)
		}},
		{Name: "followed-by-much", N: pbt.Scale(20000, 300000), Make: func(r *pbt.Rand, i int) any {
			return mk(r, gen.RandomRaw(r, r.N(1<<uint(r.In(1, 12)))).WithRest(r, 1<<uint(r.In(10, 16))))
		}},
		{Name: "followed-by-megabytes", N: pbt.Scale(60, 600), Workers: 4, Make: func(r *pbt.Rand, i int) any {
			return mk(r, gen.RandomRaw(r, r.N(1<<uint(r.In(1, rest-5)))).WithRest(r, 1<<uint(r.In(rest-7, rest))))
		}},
		{Name: "source-constants-as-counts", N: len(dict), Workers: 4, Make: func(r *pbt.Rand, i int) any { return mk(r, gen.RandomRaw(r, dict[i])) }},
		{Name: "source-conditions", N: len(gen.Groups) * pbt.Scale(400, 4000), Make: func(r *pbt.Rand, i int) any {
			c := mk(r, gen.RawFor(r, i, conditionSize(r, i)))
			if r.Bool() {
				c.(*rawCase).Base = gen.Groups[i%len(gen.Groups)].Number(r)
			}
			return c
		}},
		{Name: "large", N: len(big), Workers: 4, Make: func(r *pbt.Rand, i int) any { return mk(r, gen.RandomRaw(r, big[i])) }},
		{Name: "huge", N: len(hugeSizes()), Workers: 1, Make: func(r *pbt.Rand, i int) any {
			return &rawCase{Raw: gen.Raw{N: hugeSizes()[i], Gen: true}, Base: 0xfffffff0}
		}},
	}
}

const rawRule = "Streams are built directly as control and data bytes (every control byte at every group position, every last control byte with junk in its unused positions, every count, widened encodings, trailing bytes up to megabytes, large counts), not by the library's writers, and compared with the reference decoder. A case is non-trivial when it has at least 5 integers and two different encoded lengths; distinct cases are counted by a 64-bit hash of the stream, count and base."

func newRawCase() any { return &rawCase{} }
func rawHash(c any) uint64 {
	s := c.(*rawCase)
	return uint64(s.Raw.Hash(pbt.NewHash().U64(uint64(s.Base))))
}
func rawNontrivial(c any) bool { return c.(*rawCase).Raw.N > hugeMin || c.(*rawCase).Raw.Mixed() }
func rawLabels(c any) []string {
	s := c.(*rawCase)
	l := []string{gen.SizeLabel(s.Raw.N), fmt.Sprintf("n mod 4 = %d", s.Raw.N%4)}
	if s.Raw.N < 4096 && !s.Raw.Minimal() {
		l = append(l, "non-minimal")
	}
	if s.Raw.N < 4096 && s.Raw.Junk() {
		l = append(l, "junk in unused positions")
	}
	if s.Raw.Rest > 1024 {
		l = append(l, "more than 1024 trailing bytes")
	} else if len(s.Raw.Trail)+s.Raw.Rest > 0 {
		l = append(l, "trailing bytes")
	}
	if s.Base != 0 {
		l = append(l, "base!=0")
	}
	return l
}
func rawShrink(c any, try func(any) bool) {
	s := c.(*rawCase)
	if s.Raw.Shrink(func(w gen.Raw) bool { return try(&rawCase{Raw: w, Base: s.Base}) }) {
		return
	}
	pbt.ShrinkU32(s.Base, func(b uint32) bool { d := *s; d.Base = b; return try(&d) })
}

func c05() *pbt.Suite {
	return &pbt.Suite{Prop: "C05", Rule: rawRule, Sections: rawSections(func(*pbt.Rand, *rawCase) {}),
		New: newRawCase, Hash: rawHash, Nontrivial: rawNontrivial, Labels: rawLabels, Shrink: rawShrink,
		Check: func(w *pbt.Worker, c any) error {
			if n := c.(*rawCase).Raw.N; n > hugeMin {
				return hugeRead(w, n)
			}
			s := c.(*rawCase)
			st := s.Raw.Stream(64)
			want, _ := ref.Decode(s.Raw.Ctrl, s.Raw.Data, s.Raw.N)
			for _, rd := range api.Readers {
				if err := checkRead(w, rd.Name, want, func(out []uint32) { rd.F(s.Raw.N, st, out) }); err != nil {
					return err
				}
			}
			return nil
		}}
}

func c06() *pbt.Suite {
	return &pbt.Suite{Prop: "C06", Rule: rawRule, Sections: rawSections(func(r *pbt.Rand, c *rawCase) { c.Base = gen.Base(r, nil) }),
		New: newRawCase, Hash: rawHash, Nontrivial: rawNontrivial, Labels: rawLabels, Shrink: rawShrink,
		Check: func(w *pbt.Worker, c any) error {
			if n := c.(*rawCase).Raw.N; n > hugeMin {
				return hugeDeltaRead(w, n)
			}
			s := c.(*rawCase)
			st := s.Raw.Stream(64)
			plain, _ := ref.Decode(s.Raw.Ctrl, s.Raw.Data, s.Raw.N)
			want := ref.Sums(plain, s.Base)
			for _, rd := range api.DeltaReaders {
				if err := checkRead(w, rd.Name, want, func(out []uint32) { rd.F(s.Raw.N, st, out, s.Base) }); err != nil {
					return err
				}
			}
			return nil
		}}
}

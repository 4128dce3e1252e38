// Command util decides C16 (varint baseline and numeric helpers) and C19 (the
// random number helpers).
package main

import (
	"bytes"
	"fmt"
	"math"
	"math/bits"
	"math/rand"
	"sort"
	"sync/atomic"
	_ "unsafe"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"

	"verif/harness/gen"
	"verif/harness/pbt"
	"verif/harness/ref"
)

func main() { pbt.Main(c16(), c19()) }

// ---- C16 -----------------------------------------------------------------------

type varCase struct {
	Seq  gen.Seq `json:"seq"`
	Base uint32  `json:"base"`
}

func uvarint(out []byte, x uint32) []byte {
	for x >= 0x80 {
		out = append(out, byte(x)|0x80)
		x >>= 7
	}
	return append(out, byte(x))
}

var edges = func() []uint32 {
	e := []uint32{0, 1, 2}
	for _, b := range []uint{7, 14, 21, 28, 8, 16, 24, 31} {
		e = append(e, 1<<b-1, 1<<b, 1<<b+1)
	}
	return append(e, math.MaxUint32-1, math.MaxUint32)
}()

func c16() *pbt.Suite {
	mk := func(r *pbt.Rand, q gen.Seq) any { return &varCase{Seq: q, Base: gen.Base(r, q.Nums())} }
	np := len(gen.Patterns)
	reps := pbt.Scale(10, 100)
	return &pbt.Suite{Prop: "C16",
		Rule: "Every sequence goes through the plain and the differential varint codec (bytes and reported sizes compared with an independent LEB128 encoder, canaries after the output) and through Delta and SortUint32. Sequences: every count up to 300 x every pattern, every pair of varint boundary values, random, large. A case is non-trivial when it has at least two integers of different varint length (plain or differential); distinct cases are counted by a 64-bit hash.",
		Sections: []pbt.Section{
			{Name: "every-count-every-pattern", N: 301 * np * reps, Make: func(r *pbt.Rand, i int) any {
				i /= reps
				return mk(r, gen.WithPat(r, i%np, i/np))
			}},
			{Name: "boundary-pairs", N: len(edges) * len(edges) * 8, Make: func(r *pbt.Rand, i int) any {
				i /= 8
				xs := []uint32{edges[i%len(edges)], edges[i/len(edges)]}
				for r.Bool() {
					xs = append(xs, edges[r.N(len(edges))])
				}
				return mk(r, gen.Explicit(xs))
			}},
			{Name: "random", N: pbt.Scale(300000, 5000000), Make: func(r *pbt.Rand, i int) any { return mk(r, gen.Random(r, r.N(1+r.N(300)))) }},
			{Name: "source-conditions", N: len(gen.Groups) * pbt.Scale(400, 4000), Make: func(r *pbt.Rand, i int) any {
				g := gen.Groups[i%len(gen.Groups)]
				n := g.Span() + r.N(1<<uint(r.In(1, 9)))
				if v := g.Number(r); r.Chance(1, 3) && v < 1<<12 {
					n = int(v)
				}
				c := mk(r, gen.SeqOf(r, i, n))
				if r.Bool() {
					c.(*varCase).Base = gen.Groups[i%len(gen.Groups)].Number(r)
				}
				return c
			}},
			{Name: "source-constants-as-counts", N: len(gen.Dict) * 18, Make: func(r *pbt.Rand, i int) any {
				n := int(gen.Dict[i%len(gen.Dict)]&(1<<21-1)) + r.N(3) - 1
				if i/len(gen.Dict) > 0 && n > 1<<16 {
					n &= 1<<16 - 1
				}
				return mk(r, gen.Random(r, max(n, 0)))
			}},
			{Name: "longer", N: pbt.Scale(24*np, 400*np), Make: func(r *pbt.Rand, i int) any {
				return mk(r, gen.WithPat(r, i%np, r.N(1<<uint(8+i/np%12))))
			}},
			{Name: "large", N: pbt.Scale(60, 600), Workers: 4, Make: func(r *pbt.Rand, i int) any {
				return mk(r, gen.Random(r, r.N(1<<uint(r.In(10, 21)))))
			}},
		},
		New: func() any { return &varCase{} },
		Hash: func(c any) uint64 {
			v := c.(*varCase)
			return uint64(v.Seq.Hash(pbt.NewHash().U64(uint64(v.Base))))
		},
		Nontrivial: func(c any) bool {
			v := c.(*varCase)
			xs := v.Seq.Nums()
			return mixed(xs) || mixed(ref.Diffs(xs, v.Base))
		},
		Labels: func(c any) []string { return []string{gen.SizeLabel(c.(*varCase).Seq.N)} },
		Shrink: func(c any, try func(any) bool) {
			v := c.(*varCase)
			if v.Seq.Shrink(func(q gen.Seq) bool { return try(&varCase{q, v.Base}) }) {
				return
			}
			pbt.ShrinkU32(v.Base, func(b uint32) bool { return try(&varCase{v.Seq, b}) })
		},
		Check: func(w *pbt.Worker, c any) error {
			v := c.(*varCase)
			xs := v.Seq.Nums()
			in := append([]uint32{}, xs...)
			for _, delta := range []bool{false, true} {
				name, vals := "Varint", xs
				if delta {
					name, vals = "DeltaVarint", ref.Diffs(xs, v.Base)
				}
				var want []byte
				for _, x := range vals {
					want = uvarint(want, x)
				}
				out := make([]byte, 5*len(xs)+16)
				for i := range out {
					out[i] = byte(0x5A + i)
				}
				var n int
				if delta {
					n = util.PutDeltaVarint(in, out, v.Base)
				} else {
					n = util.PutVarint(in, out)
				}
				w.Calls += 2
				if n != len(want) || !bytes.Equal(out[:n], want) {
					return fmt.Errorf("Put%s wrote %d bytes, want %d, or different ones", name, n, len(want))
				}
				for i := n; i < len(out); i++ {
					if out[i] != byte(0x5A+i) {
						return fmt.Errorf("Put%s wrote byte %d after reporting %d", name, i, n)
					}
				}
				if len(xs) < 4096 { // no room to spare
					tight, back := make([]byte, len(want)), make([]uint32, len(xs))
					data := append(make([]byte, 0, len(want)), want...)
					var n, k int
					if delta {
						n, k = util.PutDeltaVarint(in, tight, v.Base), util.GetDeltaVarint(data[:len(want):len(want)], back, v.Base)
					} else {
						n, k = util.PutVarint(in, tight), util.GetVarint(data[:len(want):len(want)], back)
					}
					w.Calls += 2
					if n != len(want) || k != len(want) || !bytes.Equal(tight, want) {
						return fmt.Errorf("Put%s or Get%s is wrong on slices of exactly the size needed: wrote %d, consumed %d of %d bytes", name, name, n, k, len(want))
					}
					for i, x := range xs {
						if back[i] != x {
							return fmt.Errorf("Get%s, slices of exactly the size needed: integer %d is %#x, want %#x", name, i, back[i], x)
						}
					}
				}
				if len(xs) > 0 && len(xs) < 4096 { // less than needed
					if err := v.tooSmall(w, name, delta, in, want); err != nil {
						return err
					}
				}
				got := make([]uint32, len(xs)+4)
				for i, x := range xs {
					got[i] = ^x
				}
				if delta {
					n = util.GetDeltaVarint(out[:n], got, v.Base)
				} else {
					n = util.GetVarint(out[:n], got)
				}
				if n != len(want) {
					return fmt.Errorf("Get%s consumed %d bytes of %d", name, n, len(want))
				}
				if !bytes.Equal(out[:n], want) {
					return fmt.Errorf("Get%s changed its input", name)
				}
				for i, x := range xs {
					if got[i] != x {
						return fmt.Errorf("Get%s: integer %d is %#x, want %#x", name, i, got[i], x)
					}
				}
				for i := len(xs); i < len(got); i++ {
					if got[i] != 0 {
						return fmt.Errorf("Get%s wrote integer %d of %d", name, i, len(xs))
					}
				}
			}
			out := make([]uint32, len(xs)+int(v.Base%3)*5)
			for i := range out {
				out[i] = 0xABABABAB
			}
			util.Delta(in, out)
			for i := len(xs); i < len(out); i++ {
				if out[i] != 0xABABABAB {
					return fmt.Errorf("Delta wrote difference %d of %d", i, len(xs))
				}
			}
			for i, d := range ref.Diffs(xs, 0) {
				if out[i] != d {
					return fmt.Errorf("Delta: difference %d is %#x, want %#x", i, out[i], d)
				}
			}
			for i, x := range xs {
				if in[i] != x {
					return fmt.Errorf("input changed at %d", i)
				}
			}
			util.SortUint32(in)
			want := append([]uint32{}, xs...)
			sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
			for i, x := range want {
				if in[i] != x {
					return fmt.Errorf("SortUint32: position %d is %#x, want %#x", i, in[i], x)
				}
			}
			w.Calls += 2
			return nil
		}}
}

// tooSmall calls the varint functions with slices that end early: they have to
// panic, and to leave what lies behind the slices alone.
func (v *varCase) tooSmall(w *pbt.Worker, name string, delta bool, in []uint32, want []byte) error {
	panics := func(f func()) (p bool) {
		defer func() { p = recover() != nil }()
		w.Calls++
		f()
		return false
	}
	pick := func(n int) int { // the nearest or any
		if v.Base&8 == 0 {
			return n - 1
		}
		return int(v.Base>>4) % n
	}
	buf := make([]byte, len(want)+8)
	k := pick(len(want))
	if !panics(func() {
		if delta {
			util.PutDeltaVarint(in, buf[:k], v.Base)
		} else {
			util.PutVarint(in, buf[:k])
		}
	}) {
		return fmt.Errorf("Put%s: %d bytes encoded into %d without a panic", name, len(want), k)
	}
	for i, b := range buf[k:] {
		if b != 0 {
			return fmt.Errorf("Put%s wrote byte %d behind an output of %d", name, k+i, k)
		}
	}
	get := func(data []byte, out []uint32) {
		if delta {
			util.GetDeltaVarint(data, out, v.Base)
		} else {
			util.GetVarint(data, out)
		}
	}
	back := make([]uint32, len(in)+4)
	k = pick(len(in))
	if !panics(func() { get(want, back[:k]) }) {
		return fmt.Errorf("Get%s: %d integers decoded into %d without a panic", name, len(in), k)
	}
	for i, x := range back[k:] {
		if x != 0 {
			return fmt.Errorf("Get%s wrote integer %d behind an output of %d", name, k+i, k)
		}
	}
	for k = pick(len(want)); k > 0 && want[k-1] < 0x80; k-- { // the last byte left has to ask for more
	}
	if k > 0 && !panics(func() { get(want[:k], back[:len(in)]) }) {
		return fmt.Errorf("Get%s returned although the data end inside a number (%d of %d bytes)", name, k, len(want))
	}
	return nil
}

func mixed(xs []uint32) bool {
	for i := range xs {
		if len(uvarint(nil, xs[i])) != len(uvarint(nil, xs[0])) {
			return true
		}
	}
	return false
}

// ---- C19 -----------------------------------------------------------------------

// The global generator of math/rand, so that draws are a function of our seed.
//
//go:linkname globalRandGenerator math/rand.globalRandGenerator
var globalRandGenerator atomic.Pointer[rand.Rand]

type seeded struct{ r *pbt.Rand }

func (s seeded) Int63() int64   { return int64(s.r.U64() >> 1) }
func (s seeded) Uint64() uint64 { return s.r.U64() }
func (s seeded) Seed(int64)     {}

// scripted gives word after word of a script and counts them.
type scripted struct {
	words []uint64
	n     int
}

func (s *scripted) Uint64() uint64 {
	s.n++
	if s.n > 32 { // a rejecting implementation has to get on
		return pbt.NewRand(s.words[0], "beyond", s.n).U64()
	}
	return s.words[(s.n-1)%len(s.words)]
}
func (s *scripted) Int63() int64 { return int64(s.Uint64() >> 1) }
func (s *scripted) Seed(int64)   {}

type randCase struct {
	Seed  uint64 `json:"seed"`
	Draws int    `json:"draws,omitempty"`
	Len   int    `json:"len,omitempty"`   // slice helper
	Chunk int    `json:"chunk,omitempty"` // draws come from slices of this length
	Walk  bool   `json:"walk,omitempty"`  // walk through the words of the source
	Which int    `json:"which,omitempty"` // family of words
	Edge  bool   `json:"edge,omitempty"`  // only look at the smallest numbers of three and four bytes
}

func c19() *pbt.Suite {
	draws := pbt.Scale(1<<24, 1<<27)
	return &pbt.Suite{Prop: "C19",
		Rule: "Campaigns of many draws from a seeded source: the four encoded lengths, every one- and two-byte value, 4096-value cells of the three-byte range sixteenths of the four-byte range, the values of every single byte of three- and four-byte numbers and the encoded lengths of neighbouring draws are counted and compared with their expected counts at 9 standard deviations plus a tolerance for the remainder bias (15% for the four-byte sixteenths). A third of the campaigns draw through the slice helper, in slices of various lengths. Walks feed the source every word of a long interval in turn and look for an end of a range that is skipped although its neighbours occur, or for numbers just beyond a range. The smallest numbers of three and four bytes and the encoded lengths are counted in half a billion further draws. The slice helper is called with every length up to 3000 and random larger ones, up to some 50 million. One draw counts as one evaluation; draws of a campaign are not separately counted as distinct; every campaign, walk and slice length is non-trivial.",
		Sections: []pbt.Section{
			{Name: "campaigns", N: pbt.Scale(12, 24), Workers: 1, Make: func(r *pbt.Rand, i int) any {
				c := &randCase{Seed: r.U64(), Draws: draws}
				if i%3 == 2 {
					c.Chunk = []int{1 << 20, 1000, 7, 64, 5000, 1, 33, 333}[i/3%8]
				}
				return c
			}},
			{Name: "long-campaign", N: pbt.Scale(0, 1), Workers: 1, Make: func(r *pbt.Rand, i int) any { return &randCase{Seed: r.U64(), Draws: 3 << 30} }},
			{Name: "edges", N: 1, Workers: 1, Make: func(r *pbt.Rand, i int) any {
				return &randCase{Seed: r.U64(), Draws: pbt.Scale(1<<29, 1<<32), Edge: true}
			}},
			{Name: "walks", N: 2, Workers: 1, Make: func(r *pbt.Rand, i int) any { return &randCase{Seed: r.U64(), Walk: true, Which: i} }},
			{Name: "slices", N: pbt.Scale(6000, 30000), Workers: 1, Make: func(r *pbt.Rand, i int) any {
				if i < 3000 {
					return &randCase{Seed: r.U64(), Len: i}
				}
				return &randCase{Seed: r.U64(), Len: r.N(1 << uint(r.In(2, 16)))}
			}},
			{Name: "long-slices", N: pbt.Scale(27, 100), Workers: 1, Make: func(r *pbt.Rand, i int) any {
				n := 1<<uint(17+i%9) + r.N(5) - 2
				if r.Bool() {
					n += r.N(1 << uint(16+i%9))
				}
				return &randCase{Seed: r.U64(), Len: n}
			}},
		},
		New:  func() any { return &randCase{} },
		Hash: func(c any) uint64 { d := c.(*randCase); return uint64(pbt.NewHash().U64(d.Seed).U64(uint64(d.Len))) },
		Check: func(w *pbt.Worker, c any) error {
			d := c.(*randCase)
			switch {
			case d.Edge:
				return rangeEdges(w, d)
			case d.Draws > 0:
				return campaign(w, d)
			case d.Walk:
				return walk(w, d)
			}
			globalRandGenerator.Store(rand.New(seeded{pbt.NewRand(d.Seed, "slice", 0)}))
			w.Calls++
			xs := util.GenUint32(d.Len)
			if len(xs) != d.Len {
				return fmt.Errorf("GenUint32(%d) returned %d numbers", d.Len, len(xs))
			}
			var by [5]int
			same, last := 0, -1
			for i, x := range xs {
				l := ref.ByteLen(x)
				by[l]++
				if same++; l != last {
					same = 1
				}
				if last = l; same >= 40 { // one in 2^78
					return fmt.Errorf("GenUint32(%d): %d numbers of %d bytes in a row up to position %d", d.Len, same, l, i)
				}
			}
			for l := 1; l <= 4 && len(xs) > 0; l++ {
				if err := near(fmt.Sprintf("numbers of %d bytes in a slice", l), by[l], float64(d.Len)/4, 9.5, 12); err != nil {
					return err
				}
			}
			return nil
		}}
}

// near complains when got is implausibly far from mean.
func near(what string, got int, mean, sigmas, slack float64) error {
	if math.Abs(float64(got)-mean) > sigmas*math.Sqrt(mean)+slack {
		return fmt.Errorf("%s: %d, expected about %.0f", what, got, mean)
	}
	return nil
}

// rangeEdges counts the first numbers of the three- and four-byte ranges: a range
// that reaches too far up gives them far more often than their neighbours.
func rangeEdges(w *pbt.Worker, d *randCase) error {
	globalRandGenerator.Store(rand.New(seeded{pbt.NewRand(d.Seed, "edges", 0)}))
	var n3, n4 [16]int
	var zeros [5]int // leading zero bytes
	var high int     // numbers from 0x80 to 0xff
	for i := 0; i < d.Draws; i++ {
		x := util.RandUint32()
		zeros[bits.LeadingZeros32(x)/8]++
		if x-0x80 < 0x80 {
			high++
		}
		if x-1<<16 < 16 {
			n3[x-1<<16]++
		} else if x-1<<24 < 16 {
			n4[x-1<<24]++
		}
		if i&0xffffff == 0 {
			w.Progress()
		}
	}
	w.Calls += int64(d.Draws)
	w.ExtraEval += int64(d.Draws) - 1
	quarter := float64(d.Draws) / 4
	zeros[3] += zeros[4]
	for l := 1; l <= 4; l++ {
		if err := near(fmt.Sprintf("numbers of %d bytes in %d draws", l, d.Draws), zeros[4-l], quarter, 9, 0); err != nil {
			return err
		}
	}
	if err := near("numbers from 0x80 to 0xff", high, quarter/2, 9, quarter*1e-4); err != nil {
		return err
	}
	for i := range n3 {
		if err := near(fmt.Sprintf("draws of %#x", 1<<16+i), n3[i], quarter/(1<<24-1<<16), 9, 12); err != nil {
			return err
		}
		// a remainder of 2^32 gives these twice as often as others
		if m := 2 * quarter / (1<<32 - 1<<24); float64(n4[i]) > m+9*math.Sqrt(m)+2 {
			return fmt.Errorf("draws of %#x: %d, expected about %.2f", 1<<24+i, n4[i], m)
		}
	}
	return nil
}

func campaign(w *pbt.Worker, d *randCase) error {
	globalRandGenerator.Store(rand.New(seeded{pbt.NewRand(d.Seed, "draws", 0)}))
	var by [5]int
	var one [256]int
	two := make([]int, 1<<16)
	three := make([]int, 1<<12)
	var four [16]int
	var bytes3, bytes4 [4][256]int // the values of each byte of three- and four-byte numbers
	var pairs [5][5]int            // encoded lengths of neighbours
	last := 0
	var ends [2]int
	var chunk []uint32
	for i := 0; i < d.Draws; i++ {
		var x uint32
		if d.Chunk > 0 { // through the slice helper
			if len(chunk) == 0 {
				n := d.Chunk
				if n > d.Draws-i {
					n = d.Draws - i
				}
				if chunk = util.GenUint32(n); len(chunk) != n {
					return fmt.Errorf("GenUint32(%d) returned %d numbers", n, len(chunk))
				}
			}
			x, chunk = chunk[0], chunk[1:]
		} else {
			x = util.RandUint32()
		}
		switch x {
		case 1 << 16:
			ends[0]++
		case 1<<24 - 1:
			ends[1]++
		}
		if i&0xffffff == 0 {
			w.Progress()
		}
		l := ref.ByteLen(x)
		pairs[last][l]++
		last = l
		if l >= 3 {
			t := &bytes3
			if l == 4 {
				t = &bytes4
			}
			for j := 0; j < l; j++ {
				t[j][byte(x>>(8*j))]++
			}
		}
		switch {
		case x < 1<<8:
			by[1]++
			one[x]++
		case x < 1<<16:
			by[2]++
			two[x]++
		case x < 1<<24:
			by[3]++
			three[x>>12]++
		default:
			by[4]++
			four[x>>28]++
		}
	}
	w.Calls += int64(d.Draws)
	w.ExtraEval += int64(d.Draws) - 1
	quarter := float64(d.Draws) / 4
	for l := 1; l <= 4; l++ {
		if err := near(fmt.Sprintf("numbers of %d bytes in %d draws", l, d.Draws), by[l], quarter, 9, 0); err != nil {
			return err
		}
	}
	for x, n := range one {
		if err := near(fmt.Sprintf("draws of %#x", x), n, quarter/256, 9, quarter/256*0.02); err != nil {
			return err
		}
	}
	for x := 1 << 8; x < 1<<16; x++ {
		m := quarter / (1<<16 - 1<<8)
		if two[x] == 0 && m > 45 {
			return fmt.Errorf("%#x never occurs in %d draws, expected about %.0f times", x, d.Draws, m)
		}
		if err := near(fmt.Sprintf("draws of %#x", x), two[x], m, 9, 12); err != nil {
			return err
		}
	}
	for k := 1 << 4; k < 1<<12; k++ {
		m := quarter * 4096 / (1<<24 - 1<<16)
		if err := near(fmt.Sprintf("draws in %#x to %#x", k<<12, k<<12|0xfff), three[k], m, 9, m*0.05); err != nil {
			return err
		}
	}
	for l := 3; l <= 4; l++ { // the lower bytes are free, the highest one is not 0
		t := &bytes3
		if l == 4 {
			t = &bytes4
		}
		for j := 0; j < l; j++ {
			for v, n := range t[j] {
				m := quarter / 256
				if j == l-1 {
					if v == 0 {
						continue
					}
					m = quarter / 255
				}
				tol := m * 0.05
				if l == 4 && j == 3 && v == 1 {
					tol = m * 1.2 // a remainder of 2^32 visits these twice as often
				}
				if err := near(fmt.Sprintf("numbers of %d bytes with byte %d equal to %#x", l, j, v), n, m, 9, tol); err != nil {
					return err
				}
			}
		}
	}
	if m := quarter / (1<<24 - 1<<16); m > 40 {
		for i, x := range []int{1 << 16, 1<<24 - 1} {
			if ends[i] == 0 {
				return fmt.Errorf("%#x never occurs in %d draws, expected about %.0f times", x, d.Draws, m)
			}
		}
	}
	for a := 1; a <= 4; a++ {
		for b := 1; b <= 4; b++ {
			if err := near(fmt.Sprintf("numbers of %d bytes after one of %d", b, a), pairs[a][b], quarter/4, 9, 10); err != nil {
				return err
			}
		}
	}
	for k, n := range four {
		m := quarter * (1 << 28) / (1<<32 - 1<<24)
		if k == 0 {
			m = quarter * (1<<28 - 1<<24) / (1<<32 - 1<<24)
		}
		if err := near(fmt.Sprintf("draws in %#x to %#x", k<<28, k<<28|0xfffffff), n, m, 9, m*0.15); err != nil {
			return err
		}
	}
	return nil
}

// walk drives the source through consecutive words, so that an implementation
// that maps words to numbers monotonically or by remainder visits whole runs of
// a range. An end of a range that never occurs while nearly all of its
// neighbours do is skipped by the helper.
func walk(w *pbt.Worker, d *randCase) error {
	s := &scripted{words: make([]uint64, 2)}
	globalRandGenerator.Store(rand.New(s))
	seen := make([]uint64, 1<<18) // bitmap below 2^24
	low4, high4 := make([]bool, 1<<16), make([]bool, 1<<16)
	n := 0
	var by [5]int
	var odd [5][]uint32 // the first results of each length
	put := func(choice, word uint64) {
		// Int63 is the word shifted right once, Uint32 its upper half
		s.words[0] = choice<<1 | choice<<33
		s.words[1] = word<<32 | word&1<<31
		if d.Which == 1 {
			s.words[0], s.words[1] = s.words[1], s.words[0]
		}
		s.n = 0
		x := util.RandUint32()
		n++
		l := ref.ByteLen(x)
		if by[l]++; by[l] <= 16 {
			odd[l] = append(odd[l], x)
		}
		if x < 1<<24 {
			seen[x>>6] |= 1 << (x & 63)
		} else if y := x - 1<<24; y < 1<<16 {
			low4[y] = true
		} else if y := math.MaxUint32 - x; y < 1<<16 {
			high4[y] = true
		}
	}
	for c := uint64(0); c < 4; c++ {
		for k := uint64(0); k < 1<<24; k++ {
			put(c, k)
			if k < 1<<17 {
				put(c, 1<<32-1-k)
				put(c, 1<<32-1<<24-1-k)
				put(c, 1<<32-1<<24+k)
			}
		}
		// One length throughout, but for a few numbers just beyond its range:
		// that range is too long.
		total, common := 0, 1
		for l := 1; l <= 4; l++ {
			if total += by[l]; by[l] > by[common] {
				common = l
			}
		}
		if k := total - by[common]; k > 0 && k <= 16*64 {
			lo, hi := int64(1)<<(8*(common-1)), int64(1)<<(8*common)-1
			beyond, example := 0, uint32(0)
			for l := 1; l <= 4; l++ {
				for _, x := range odd[l] {
					if l != common && (lo-int64(x) > 0 && lo-int64(x) <= 4 || int64(x)-hi > 0 && int64(x)-hi <= 4) {
						beyond++
						example = x
					} else if l != common {
						beyond -= 1000
					}
				}
			}
			if beyond > 0 {
				return fmt.Errorf("%#x occurs among %d numbers of %d bytes", example, by[common], common)
			}
		}
		by, odd = [5]int{}, [5][]uint32{}
	}
	w.Calls += int64(n)
	w.ExtraEval += int64(n) - 1
	has := func(x uint32) bool { return seen[x>>6]>>(x&63)&1 == 1 }
	end := func(at, dir int64) error { // dir points into the range
		const k = 200
		cnt := 0
		for j := int64(1); j <= k; j++ {
			if has(uint32(at + dir*j)) {
				cnt++
			}
		}
		if cnt >= k-2 && !has(uint32(at)) {
			return fmt.Errorf("%#x never occurs although %d of its %d neighbours do", at, cnt, k)
		}
		return nil
	}
	for _, e := range [][2]int64{{0, 1}, {255, -1}, {256, 1}, {65535, -1}, {65536, 1}, {1<<24 - 1, -1}} {
		if err := end(e[0], e[1]); err != nil {
			return err
		}
	}
	for i, l := range [][]bool{low4, high4} {
		cnt := 0
		for _, b := range l[1:1001] {
			if b {
				cnt++
			}
		}
		if cnt >= 995 && !l[0] {
			return fmt.Errorf("%#x never occurs although %d of its 1000 neighbours do", []uint32{1 << 24, math.MaxUint32}[i], cnt)
		}
		pbt.Note("walk %d: %d of 1000 neighbours of the %s 4-byte number occur", d.Which, cnt, []string{"smallest", "largest"}[i])
	}
	return nil
}

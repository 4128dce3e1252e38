// Command dispatch decides C11 in one configuration of CPU features. The
// driver models CPUs (or masks features with GODEBUG) and, in the trap builds, puts a fault
// before every instruction the masked CPU would not have.
//
// PBT_CONFIG is "<features>/<build>": features are none, avx or full; build is
// plain, trap (no unavailable instruction may execute) or must-trap (every
// general function has to reach an accelerated instruction).
package main

import (
	"fmt"
	"runtime"
	"strings"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/shared"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/stream/reader"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/stream/writer"

	"verif/harness/api"
	"verif/harness/gen"
	"verif/harness/pbt"
	"verif/harness/ref"
)

type dispCase struct {
	Seq  gen.Seq `json:"seq"`
	Base uint32  `json:"base"`
	Fn   int     `json:"function"`
}

var features, build, _ = strings.Cut(pbt.Config(), "/")

var functions = []struct {
	name string
	enc  bool
	f    func(xs []uint32, base uint32) error
}{
	{"WriteAll", true, func(xs []uint32, base uint32) error {
		return api.DiffBytes(writer.WriteAll(xs), ref.Encode(xs))
	}},
	{"WriteAllDelta", true, func(xs []uint32, base uint32) error {
		return api.DiffBytes(writer.WriteAllDelta(xs, base), ref.Encode(ref.Diffs(xs, base)))
	}},
	{"ReadAll", false, func(xs []uint32, base uint32) error {
		out := make([]uint32, len(xs))
		reader.ReadAll(len(xs), ref.Encode(xs), out)
		return api.Diff(out, xs)
	}},
	{"ReadAllDelta", false, func(xs []uint32, base uint32) error {
		out := make([]uint32, len(xs))
		reader.ReadAllDelta(len(xs), ref.Encode(ref.Diffs(xs, base)), out, base)
		return api.Diff(out, xs)
	}},
	{"Put8uint32", true, func(xs []uint32, base uint32) error {
		out := make([]byte, 32)
		return putResult(encode.Put8uint32(xs, out), out, xs)
	}},
	{"Put8uint32Delta", true, func(xs []uint32, base uint32) error {
		out := make([]byte, 32)
		return putResult(encode.Put8uint32Delta(xs, out, base), out, ref.Diffs(xs, base))
	}},
	{"Get8uint32", false, func(xs []uint32, base uint32) error {
		in, out, ctrl := block(xs)
		decode.Get8uint32(in, out, ctrl)
		return api.Diff(out, xs)
	}},
	{"Get8uint32Delta", false, func(xs []uint32, base uint32) error {
		in, out, ctrl := block(ref.Diffs(xs, base))
		decode.Get8uint32Delta(in, out, ctrl, base)
		return api.Diff(out, xs)
	}},
}

const firstBlock = 4

func block(xs []uint32) ([]byte, []uint32, uint16) {
	in := make([]byte, 32)
	copy(in, ref.Data(xs))
	c := ref.Ctrl(xs)
	return in, make([]uint32, 8), uint16(c[0]) | uint16(c[1])<<8
}

func putResult(ctrl uint16, out []byte, xs []uint32) error {
	c := ref.Ctrl(xs)
	if want := uint16(c[0]) | uint16(c[1])<<8; ctrl != want {
		return fmt.Errorf("control value %#x, want %#x", ctrl, want)
	}
	d := ref.Data(xs)
	return api.DiffBytes(out[:len(d)], d)
}

func modes() error {
	wantE, wantD := shared.Normal, shared.Normal
	if features == "avx" || features == "full" {
		wantD = shared.Fast
	}
	if features == "full" {
		wantE = shared.Fast
	}
	if m := encode.GetMode(); m != wantE {
		return fmt.Errorf("features %s: encode.GetMode() = %v, want %v", features, m, wantE)
	}
	if m := decode.GetMode(); m != wantD {
		return fmt.Errorf("features %s: decode.GetMode() = %v, want %v", features, m, wantD)
	}
	return nil
}

func check(w *pbt.Worker, c any) error {
	d := c.(*dispCase)
	if err := modes(); err != nil {
		return err
	}
	f := functions[d.Fn]
	w.Calls++
	xs := d.Seq.Nums()
	before := append([]uint32(nil), xs...)
	trapped, err := run(func() error { return f.f(xs, d.Base) })
	must := build == "must-trap" && usable(f.enc)
	switch {
	case trapped != nil && !must:
		return fmt.Errorf("features %s: %s of %d integers executes an instruction the CPU does not have, or faults: %v", features, f.name, len(xs), trapped)
	case trapped == nil && must:
		return fmt.Errorf("features %s: %s of %d integers never used the accelerated code", features, f.name, len(xs))
	case trapped == nil && err != nil:
		return fmt.Errorf("features %s: %s of %d integers: %v", features, f.name, len(xs), err)
	}
	return api.Diff(xs, before)
}

// usable says whether this CPU has what the accelerated code needs.
func usable(enc bool) bool { return features == "full" || features == "avx" && !enc }

// run reports a memory fault of f, which is what the traps cause.
func run(f func() error) (trapped any, err error) {
	defer func() {
		if p := recover(); p != nil {
			if e, ok := p.(runtime.Error); ok && strings.Contains(e.Error(), "invalid memory address") {
				trapped = p
				return
			}
			panic(p)
		}
	}()
	return nil, f()
}

func mk(r *pbt.Rand, fn, n int) any {
	if fn >= firstBlock {
		n = 8
	}
	d := &dispCase{Seq: gen.Random(r, n), Fn: fn}
	d.Base = gen.Base(r, d.Seq.Nums())
	return d
}

func main() {
	must := build == "must-trap"
	size := func(r *pbt.Rand) int {
		n := r.N(200)
		switch r.N(40) {
		case 0:
			n = r.N(20000)
		case 1:
			n = 1<<uint(8+r.N(9)) + r.N(9) - 4
		}
		if must {
			n += 64
		}
		return n
	}
	lo := 0
	if must {
		lo = 64
	}
	secs := []pbt.Section{
		{Name: "every-size", N: 8 * 130, Make: func(r *pbt.Rand, i int) any { return mk(r, i%8, lo+i/8) }},
		{Name: "random", N: pbt.Scale(60000, 3000000), Make: func(r *pbt.Rand, i int) any { return mk(r, i%8, size(r)) }},
		{Name: "large", N: pbt.Scale(64, 800), Make: func(r *pbt.Rand, i int) any {
			if pbt.Slow() {
				return mk(r, i%firstBlock, 1<<uint(9+r.N(6))+r.N(64))
			}
			return mk(r, i%firstBlock, 1<<uint(14+r.N(8))+r.N(64))
		}},
	}
	pbt.Main(&pbt.Suite{
		Prop:     "C11",
		Rule:     "Every case is one call of one general function (streams and blocks, plain and delta) on a generated sequence, in one configuration: CPU features none, AVX only or all (on modelled CPUs, whose CPUID and XGETBV answers are changed by a tracer, or masked through GODEBUG where that is impossible), on the plain build, on a build with a fault before every assembly instruction the masked CPU lacks (none may be reached, results must match the reference model), and on a build where the fault has to be reached (the accelerated code is in use). The reported modes are compared with the features in every case. Non-trivial: a block function, or a stream of at least 8 integers; distinct by hash of sequence, base and function.",
		Sections: secs, New: func() any { return &dispCase{} }, Check: check,
		Hash: func(c any) uint64 {
			d := c.(*dispCase)
			return uint64(d.Seq.Hash(pbt.NewHash()).U64(uint64(d.Base)).U64(uint64(d.Fn)))
		},
		Nontrivial: func(c any) bool { return c.(*dispCase).Seq.N >= 8 },
		Labels: func(c any) []string {
			d := c.(*dispCase)
			return []string{features + " " + build + " " + functions[d.Fn].name}
		},
		Shrink: func(c any, try func(any) bool) {
			d := c.(*dispCase)
			min := lo
			if d.Fn >= firstBlock {
				min = 8
			}
			d.Seq.Shrink(func(q gen.Seq) bool {
				if q.N < min {
					return false
				}
				e := *d
				e.Seq = q
				return try(&e)
			})
			pbt.ShrinkU32(d.Base, func(b uint32) bool { e := *d; e.Base = b; return try(&e) })
		},
	})
}

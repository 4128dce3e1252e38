// Command indep decides C13: calls are independent of earlier and of concurrent
// calls, and results belong to the caller. Histories of calls are run against
// the reference model while earlier results are kept, checked after every
// step, overwritten, appended to and garbage collected around.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"unsafe"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"

	"verif/harness/api"
	"verif/harness/gen"
	"verif/harness/pbt"
	"verif/harness/ref"
)

type op struct {
	Fn   int    `json:"fn"`
	N    int    `json:"n"`
	Pat  int    `json:"pattern"`
	Seed uint64 `json:"seed"`
	Base uint32 `json:"base"`
	// what happens after the call, to the input and to earlier results
	After int `json:"after"`
}

const (
	mutateInput = 1 << iota // overwrite the input slice
	scribble                // overwrite some earlier result
	appendTo                // append to some earlier result, within its capacity
	collect                 // garbage collection
	again                   // the same call once more, right away
	shared                  // read the input shared by all goroutines
	forget                  // drop the older results
	tweak                   // with again: after changing an integer in place
	failing                 // a call of the same function that panics comes first
	elsewhere               // in a goroutine of its own, at some depth of its stack
)

type indepCase struct {
	Hist  [][]op `json:"histories"`                  // one per goroutine
	Fresh bool   `json:"in_a_new_process,omitempty"` // these calls are the first ones there
	Times int    `json:"times,omitempty"`            // the calls of the history, this often in turn
}

type fn struct {
	name  string
	kind  int // 0 writer, 1 delta writer, 2 reader, 3 delta reader, 4 block encoder, 5 block decoder, 6 helper
	index int
}

var fns []fn

func init() {
	for rep := 0; rep < 2; rep++ { // stream functions twice as often as block functions
		for i, f := range api.Writers {
			fns = append(fns, fn{f.Name, 0, i})
		}
		for i, f := range api.DeltaWriters {
			fns = append(fns, fn{f.Name, 1, i})
		}
		for i, f := range api.Readers {
			fns = append(fns, fn{f.Name, 2, i})
		}
		for i, f := range api.DeltaReaders {
			fns = append(fns, fn{f.Name, 3, i})
		}
	}
	for i, f := range api.Encoders {
		fns = append(fns, fn{f.Name, 4, i})
	}
	for i, f := range api.Decoders {
		fns = append(fns, fn{f.Name, 5, i})
	}
	for i, n := range []string{"PutVarint", "PutDeltaVarint", "Delta", "SortUint32", "GenUint32"} {
		fns = append(fns, fn{n, 6, i})
	}
}

// result is an earlier result with what it must still be.
type result struct {
	who  string
	b    []byte
	u    []uint32
	want []byte
	wu   []uint32
}

func (r *result) check() error {
	if r.b != nil && !bytes.Equal(r.b, r.want) {
		return fmt.Errorf("the earlier result of %s changed: %v", r.who, api.DiffBytes(r.b, r.want))
	}
	if r.u != nil {
		if err := api.Diff(r.u, r.wu); err != nil {
			return fmt.Errorf("the earlier output of %s changed: %v", r.who, err)
		}
	}
	return nil
}

func span(b []byte) (uintptr, uintptr) {
	p := uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	return p, p + uintptr(cap(b))
}
func spanU(b []uint32) (uintptr, uintptr) {
	p := uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	return p, p + 4*uintptr(cap(b))
}
func overlap(a, b, c, d uintptr) bool { return a < b && c < d && a < d && c < b }

// sharedXs is read by all goroutines at the same time.
var sharedXs, sharedStream = func() ([]uint32, []byte) {
	xs := gen.Nums(pbt.NewRand(1, "shared", 0), 0, 333)
	return xs, ref.Encode(xs)
}()

type machine struct {
	kept []*result
	tick int
	n    int64
	gate func() // waits for the other goroutines, before the first call
}

func (m *machine) ready() {
	if g := m.gate; g != nil {
		m.gate = nil
		g()
	}
}

func (m *machine) step(o op) error {
	if o.After&elsewhere == 0 {
		return m.do(o)
	}
	var err error
	var p any
	done := make(chan bool)
	go func() {
		defer close(done)
		defer func() { p = recover() }()
		if o.Seed>>20%4 == 0 { // while a panic unwinds the stack
			defer func() { recover() }()
			defer func() { err = at(int(o.Seed>>32%40), func() error { return m.do(o) }) }()
			panic("unwinding")
		}
		err = at(int(o.Seed>>32%40), func() error { return m.do(o) })
	}()
	if <-done; p != nil {
		panic(p)
	}
	return err
}

// at calls f deeper in the stack.
//
//go:noinline
func at(depth int, f func() error) error {
	var pad [5]uint64
	if depth == 0 {
		return f()
	}
	pad[depth%5] = uint64(depth)
	err := at(depth-1, f)
	if pad[depth%5] != uint64(depth) {
		return errors.New("the stack of a caller changed")
	}
	return err
}

// fail makes a call that lacks something, and panics: it must leave nothing behind.
func fail(f fn, r *pbt.Rand, base uint32) {
	defer func() { recover() }()
	n := 1 + r.N(1<<uint(r.In(1, 8)))
	xs := gen.Nums(r, r.N(len(gen.Patterns)), n)
	scalar := strings.Contains(f.name, "Scalar")
	switch f.kind {
	case 2, 3:
		enc, out := ref.Encode(xs), make([]uint32, n)
		switch {
		case !scalar: // the others may trust what they are given
			n, enc = 1+r.N(40), nil
			out = make([]uint32, n)
		case r.Chance(1, 3):
			out = slices.Clip(out[:r.N(n)])
		default:
			enc = slices.Clip(enc[:r.N(len(enc))])
		}
		if f.kind == 2 {
			api.Readers[f.index].F(n, enc, out)
		} else {
			api.DeltaReaders[f.index].F(n, enc, out, base)
		}
	case 4:
		if e := api.Encoders[f.index]; scalar {
			l := api.Lanes(e.Lanes, 1+r.N(4))
			e.F(append(xs, make([]uint32, 8)...)[:l], make([]byte, r.N(l)), base, l)
		}
	case 5:
		if d := api.Decoders[f.index]; scalar {
			l := api.Lanes(d.Lanes, 1+r.N(4))
			d.F(make([]byte, r.N(l)), make([]uint32, l), uint16(r.U32()), base, l)
		}
	case 6:
		buf := make([]byte, 5*n)
		k := util.PutVarint(xs, buf)
		switch f.index {
		case 0:
			if r.Bool() {
				util.PutVarint(xs, make([]byte, r.N(k)))
			}
			util.GetVarint(slices.Clip(buf[:k]), make([]uint32, r.N(n)))
		case 1:
			if r.Bool() {
				util.PutDeltaVarint(xs, make([]byte, r.N(n)), base)
			}
			util.GetDeltaVarint(slices.Clip(buf[:k]), make([]uint32, r.N(n)), base)
		case 2:
			util.Delta(xs, make([]uint32, r.N(n)))
		case 4:
			util.GenUint32(-1 - r.N(5))
		}
	}
}

func (m *machine) do(o op) error {
	f := fns[o.Fn%len(fns)]
	r := pbt.NewRand(o.Seed, "op", o.N)
	if o.After&failing != 0 {
		for k := 1 + r.N(3); k > 0; k-- {
			fail(f, r, o.Base)
		}
	}
	var xs []uint32
	lanes := 0
	if f.kind == 4 {
		lanes = api.Encoders[f.index].Lanes
	} else if f.kind == 5 {
		lanes = api.Decoders[f.index].Lanes
	}
	if f.kind == 4 || f.kind == 5 {
		if lanes == 0 {
			lanes = 1 + int(o.Seed%4)
		}
		xs = gen.Nums(r, o.Pat, lanes)
	} else if f.kind == 6 {
		return m.helper(f, o, gen.Nums(r, o.Pat, o.N))
	} else if o.After&shared != 0 {
		xs = sharedXs
	} else {
		xs = gen.Nums(r, o.Pat, o.N)
	}
	delta := f.kind == 1 || f.kind == 3 || f.kind == 4 && api.Encoders[f.index].Delta || f.kind == 5 && api.Decoders[f.index].Delta
	diffs := xs
	if delta {
		diffs = ref.Diffs(xs, o.Base)
	}
	orig := append([]uint32{}, xs...)
	times := 1
	if o.After&again != 0 {
		times = 2 + int(o.Seed>>8%3)
	}
	var own []byte // in one place, too
	for k := 0; k < times; k++ {
		m.n++
		switch f.kind {
		case 0, 1:
			var got []byte
			m.ready()
			if f.kind == 0 {
				got = api.Writers[f.index].F(xs)
			} else {
				got = api.DeltaWriters[f.index].F(xs, o.Base)
			}
			want := ref.Encode(diffs)
			if !bytes.Equal(got, want) {
				return fmt.Errorf("%s: %v", f.name, api.DiffBytes(got, want))
			}
			lo, hi := span(got)
			if a, b := spanU(xs); overlap(lo, hi, a, b) {
				return fmt.Errorf("the result of %s shares memory with its input", f.name)
			}
			for _, e := range m.kept {
				if e.b == nil {
					continue
				}
				if a, b := span(e.b); overlap(lo, hi, a, b) {
					return fmt.Errorf("the result of %s shares memory with an earlier result of %s", f.name, e.who)
				}
			}
			if got != nil {
				m.kept = append(m.kept, &result{who: f.name, b: got, want: want})
			}
		case 2, 3:
			enc := ref.Encode(diffs)
			if len(enc) == len(own) {
				copy(own, enc)
			} else {
				own = enc
			}
			st := own
			if o.After&shared != 0 && f.kind == 2 {
				st = sharedStream
			}
			keep := append([]byte{}, st...)
			out := make([]uint32, len(xs))
			for i, x := range xs {
				out[i] = ^x
			}
			m.ready()
			if f.kind == 2 {
				api.Readers[f.index].F(len(xs), st, out)
			} else {
				api.DeltaReaders[f.index].F(len(xs), st, out, o.Base)
			}
			if err := api.Diff(out, orig); err != nil {
				return fmt.Errorf("%s: %v", f.name, err)
			}
			if !bytes.Equal(st, keep) {
				return fmt.Errorf("%s changed its input", f.name)
			}
			m.kept = append(m.kept, &result{who: f.name, u: out, wu: append([]uint32{}, orig...)})
		case 4:
			out := make([]byte, 32)
			m.ready()
			c := api.Encoders[f.index].F(xs, out, o.Base, lanes)
			want, ct := ref.Data(diffs), append(ref.Ctrl(diffs), 0)
			if byte(c) != ct[0] || byte(c>>8) != ct[1] || !bytes.Equal(out[:len(want)], want) {
				return fmt.Errorf("%s: control %#x bytes % x, want % x % x", f.name, c, out[:len(want)], ct, want)
			}
			m.kept = append(m.kept, &result{who: f.name, b: out[:len(want)], want: want})
		case 5:
			data := append(ref.Data(diffs), make([]byte, 32)...)[:32]
			ct := append(ref.Ctrl(diffs), 0)
			out := make([]uint32, lanes)
			m.ready()
			api.Decoders[f.index].F(data, out, uint16(ct[0])|uint16(ct[1])<<8, o.Base, lanes)
			if err := api.Diff(out, orig); err != nil {
				return fmt.Errorf("%s: %v", f.name, err)
			}
			m.kept = append(m.kept, &result{who: f.name, u: out, wu: append([]uint32{}, orig...)})
		}
		if err := api.Diff(xs, orig); err != nil {
			return fmt.Errorf("%s changed its input: %v", f.name, err)
		}
		if o.After&tweak != 0 && o.After&shared == 0 && len(xs) > 0 && k+1 < times {
			// other contents in the same place: results must not come from a cache
			j := r.N(len(xs))
			if r.Bool() {
				j = len(xs) / 2
			}
			xs[j] = gen.OfLen(r, ref.ByteLen(xs[j]))
			if r.Chance(1, 3) {
				xs[j] = r.U32()
			}
			copy(orig, xs)
			if delta {
				copy(diffs, ref.Diffs(xs, o.Base))
			}
		}
	}
	if o.After&mutateInput != 0 && o.After&shared == 0 {
		for i := range xs {
			xs[i] = ^xs[i] * 3
		}
	}
	m.tick++
	if k := len(m.kept); k > 0 {
		e := m.kept[r.N(k)]
		if o.After&scribble != 0 {
			for i := range e.b {
				e.b[i] ^= 0x5f
				e.want[i] ^= 0x5f
			}
			for i := range e.u {
				e.u[i] = ^e.u[i]
				e.wu[i] = ^e.wu[i]
			}
		}
		if o.After&appendTo != 0 && e.b != nil {
			full := e.b[:cap(e.b)]
			for i := len(e.b); i < len(full); i++ {
				full[i] ^= 0xa6
			}
		}
	}
	if o.After&collect != 0 {
		runtime.GC()
	}
	for _, e := range m.kept {
		if err := e.check(); err != nil {
			return fmt.Errorf("after %s: %v", f.name, err)
		}
	}
	if o.After&forget != 0 || len(m.kept) > 24 {
		m.kept = append([]*result(nil), m.kept[len(m.kept)/2:]...)
	}
	return nil
}

// repeated makes the calls of the history in turn, very often, without keeping
// anything: the millionth has to be like the first.
func repeated(ops []op, times int) (total int64, err error) {
	var calls []func() bool
	for _, o := range ops {
		f := fns[o.Fn%len(fns)]
		r := pbt.NewRand(o.Seed, "op", o.N)
		lanes, n := 0, o.N
		delta := f.kind == 1 || f.kind == 3
		switch f.kind {
		case 4:
			lanes, delta = api.Encoders[f.index].Lanes, api.Encoders[f.index].Delta
		case 5:
			lanes, delta = api.Decoders[f.index].Lanes, api.Decoders[f.index].Delta
		}
		if f.kind == 4 || f.kind == 5 {
			if lanes == 0 {
				lanes = 1 + int(o.Seed%4)
			}
			n = lanes
		}
		xs := gen.Nums(r, o.Pat, n)
		diffs := xs
		if delta {
			diffs = ref.Diffs(xs, o.Base)
		}
		enc, data, ct, base := ref.Encode(diffs), ref.Data(diffs), append(ref.Ctrl(diffs), 0, 0), o.Base
		ctrl := uint16(ct[0]) | uint16(ct[1])<<8
		out, buf := make([]uint32, n), make([]byte, 32)
		fresh := func() { // what is left of the last call
			for i := range out {
				out[i] = ^xs[i]
			}
		}
		switch f.kind {
		case 0:
			calls = append(calls, func() bool { return bytes.Equal(api.Writers[f.index].F(xs), enc) })
		case 1:
			calls = append(calls, func() bool { return bytes.Equal(api.DeltaWriters[f.index].F(xs, base), enc) })
		case 2:
			calls = append(calls, func() bool { fresh(); api.Readers[f.index].F(n, enc, out); return slices.Equal(out, xs) })
		case 3:
			calls = append(calls, func() bool { fresh(); api.DeltaReaders[f.index].F(n, enc, out, base); return slices.Equal(out, xs) })
		case 4:
			calls = append(calls, func() bool {
				buf[0] = ^data[0]
				c := api.Encoders[f.index].F(xs, buf, base, lanes)
				return c == ctrl && bytes.Equal(buf[:len(data)], data)
			})
		case 5:
			in := append(data, make([]byte, 32)...)[:32]
			calls = append(calls, func() bool {
				fresh()
				api.Decoders[f.index].F(in, out, ctrl, base, lanes)
				return slices.Equal(out, xs)
			})
		case 6:
			m := &machine{}
			calls = append(calls, func() bool { m.kept = m.kept[:0]; e := m.helper(f, o, slices.Clone(xs)); return e == nil })
		}
	}
	for k := 0; k < times; k++ {
		j := k % len(calls)
		total++
		if !calls[j]() {
			return total, fmt.Errorf("%s: call %d of this loop has a wrong result", fns[ops[j].Fn%len(fns)].name, k)
		}
	}
	return total, nil
}

// helper runs one of the functions of package util.
func (m *machine) helper(f fn, o op, xs []uint32) error {
	m.n++
	orig := append([]uint32{}, xs...)
	m.ready()
	switch f.index {
	case 0, 1:
		buf, out := make([]byte, 5*len(xs)), make([]uint32, len(xs))
		n, k := 0, 0
		if f.index == 0 {
			n = util.PutVarint(xs, buf)
			k = util.GetVarint(buf[:n], out)
		} else {
			n = util.PutDeltaVarint(xs, buf, o.Base)
			k = util.GetDeltaVarint(buf[:n], out, o.Base)
		}
		if n != k {
			return fmt.Errorf("%s wrote %d bytes, %d were read", f.name, n, k)
		}
		if err := api.Diff(out, orig); err != nil {
			return fmt.Errorf("%s: %v", f.name, err)
		}
		m.kept = append(m.kept, &result{who: f.name, u: out, wu: append([]uint32{}, orig...)})
	case 2:
		out := make([]uint32, len(xs))
		util.Delta(xs, out)
		if err := api.Diff(out, ref.Diffs(orig, 0)); err != nil {
			return fmt.Errorf("%s: %v", f.name, err)
		}
	case 3:
		util.SortUint32(xs)
		slices.Sort(orig)
		if err := api.Diff(xs, orig); err != nil {
			return fmt.Errorf("%s: %v", f.name, err)
		}
	case 4:
		got := util.GenUint32(o.N)
		if len(got) != o.N {
			return fmt.Errorf("%s(%d) returned %d numbers", f.name, o.N, len(got))
		}
		lo, hi := spanU(got)
		for _, e := range m.kept {
			if a, b := spanU(e.u); e.u != nil && overlap(lo, hi, a, b) {
				return fmt.Errorf("the result of %s shares memory with an earlier result of %s", f.name, e.who)
			}
		}
		m.kept = append(m.kept, &result{who: f.name, u: got, wu: append([]uint32{}, got...)})
	}
	if err := api.Diff(xs, orig); err != nil {
		return fmt.Errorf("%s changed its input: %v", f.name, err)
	}
	return nil
}

func genOp(r *pbt.Rand, size int) op {
	o := op{Fn: r.N(len(fns)), Pat: r.N(len(gen.Patterns)), Seed: r.U64(), Base: gen.Base(r, nil), N: size}
	switch r.N(8) {
	case 0:
		o.N = r.N(10)
	case 1, 2:
		o.N = r.N(80)
	case 3:
		o.N = r.N(700)
	case 4:
		o.N = size + r.N(5)
	}
	if r.Chance(1, 60) {
		o.N = r.N(20000)
	}
	for _, f := range []struct{ bit, n int }{{mutateInput, 3}, {scribble, 4}, {appendTo, 4}, {again, 5}, {tweak, 2}, {shared, 6}, {forget, 12}, {collect, 400}, {failing, 7}, {elsewhere, 9}} {
		if r.Chance(1, f.n) {
			o.After |= f.bit
		}
	}
	return o
}

func genHist(r *pbt.Rand, n int) []op {
	size := r.N(200)
	h := make([]op, n)
	for i := range h {
		h[i] = genOp(r, size)
	}
	return h
}

// concurrently runs every history in its own goroutine, and says how many
// calls that were. With gates, the first calls of all come at the same moment.
func concurrently(h [][]op, gates bool) (total int64, err error) {
	errs := make([]error, len(h))
	calls := make([]int64, len(h))
	start := make(chan struct{})
	var wg sync.WaitGroup
	var waiting atomic.Int32
	waiting.Store(int32(len(h)))
	for g := range h {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					errs[g] = fmt.Errorf("panic: %v", p)
				}
			}()
			m := &machine{}
			if gates {
				m.gate = func() {
					waiting.Add(-1)
					for k := 0; waiting.Load() > 0; k++ {
						if k > 1000 {
							runtime.Gosched()
						}
					}
				}
				defer m.ready()
			}
			<-start
			for i, o := range h[g] {
				if err := m.step(o); err != nil {
					errs[g] = fmt.Errorf("goroutine %d, step %d: %v", g, i, err)
					break
				}
			}
			calls[g] = m.n
		}(g)
	}
	close(start)
	wg.Wait()
	for g := range h {
		total += calls[g]
	}
	for _, err := range errs {
		if err != nil {
			return total, err
		}
	}
	return total, nil
}

// inNewProcess runs the histories where nothing was called before.
func inNewProcess(h [][]op) error {
	b, err := json.Marshal(h)
	if err != nil {
		return err
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), "PBT_FIRST="+string(b), "GORACE=atexit_sleep_ms=0")
	out, err := cmd.CombinedOutput()
	if len(out) > 1500 {
		out = out[:1500]
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		return fmt.Errorf("first calls in a new process: %s", bytes.TrimSpace(out))
	} else if err != nil {
		fmt.Fprintln(os.Stderr, "indep: cannot run:", err)
		os.Exit(3)
	}
	return nil
}

func firstCalls(s string) {
	var h [][]op
	if err := json.Unmarshal([]byte(s), &h); err != nil {
		panic(err)
	}
	runtime.GOMAXPROCS(max(len(h), runtime.GOMAXPROCS(0)))
	if _, err := concurrently(h, true); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	os.Exit(0)
}

func main() {
	race := pbt.Config() == "race"
	if s := os.Getenv("PBT_FIRST"); s != "" {
		firstCalls(s)
	}
	seqN, conN, big, first := pbt.Scale(30000, 600000), pbt.Scale(1500, 30000), pbt.Scale(40, 600), pbt.Scale(4000, 40000)
	var longFns []int
	for i, f := range fns {
		if f.kind < 4 || f.kind == 6 {
			longFns = append(longFns, i)
		}
	}
	veryLarge := len(longFns) * pbt.Scale(1, 10)
	rep := 2 * len(fns)
	if race {
		rep, veryLarge = 0, 0
		seqN, conN, big, first = pbt.Scale(300, 3000), pbt.Scale(500, 8000), pbt.Scale(10, 100), pbt.Scale(400, 4000)
	}
	pbt.Main(&pbt.Suite{Prop: "C13",
		Rule: "Histories of 2 to 40 calls (all stream and block functions), with inputs overwritten after the call, earlier results overwritten, appended to within their capacity, kept and garbage collected around, calls that panic in between, and calls made in other goroutines and at other depths of the stack; every result is compared with the reference model, every kept result is compared with its recorded contents after every later step, and the memory of results is checked for overlap. Concurrent cases run 2 to 8 such histories in as many goroutines, in an ordinary and in a race-detector build. Repeated cases make one to four calls of one function in turn, about a million times. First calls are 2 to 8 such histories in a new process, the first call of each released at the same moment. A case is non-trivial when a history has at least two calls and keeps a result across a later one; distinct cases are counted by a 64-bit hash of the histories.",
		Sections: []pbt.Section{
			{Name: "histories", N: seqN, Make: func(r *pbt.Rand, i int) any {
				return &indepCase{Hist: [][]op{genHist(r, r.In(2, 40))}}
			}},
			{Name: "first-calls", N: first, Workers: 4, Make: func(r *pbt.Rand, i int) any {
				c := &indepCase{Fresh: true}
				o := genOp(r, r.N(100))
				o.Fn, o.N = i%len(fns), 1+r.N(100)
				same := r.Chance(2, 3)
				for k := r.In(2, 8); k > 0; k-- {
					h := []op{o, genOp(r, r.N(100))}
					if h[0].Seed, h[0].After = r.U64(), 0; !same {
						h[0].Fn = r.N(len(fns))
					}
					c.Hist = append(c.Hist, h)
				}
				return c
			}},
			{Name: "repeated", N: rep, Make: func(r *pbt.Rand, i int) any {
				c := &indepCase{Times: pbt.Scale(1<<20, 1<<24)}
				var h []op
				for k := r.In(1, 4); k > 0; k-- {
					o := genOp(r, 1+r.N(60))
					o.Fn, o.N, o.After = i%len(fns), 1+r.N(60), 0
					h = append(h, o)
				}
				switch k := fns[i%len(fns)].kind; {
				case k == 6:
					c.Times /= 8
				case k >= 4:
					c.Times *= 2
				}
				c.Hist = [][]op{h}
				return c
			}},
			{Name: "concurrent", N: conN, Workers: 1, Make: func(r *pbt.Rand, i int) any {
				c := &indepCase{}
				for k := r.In(2, 8); k > 0; k-- {
					c.Hist = append(c.Hist, genHist(r, r.In(4, 40)))
				}
				return c
			}},
			{Name: "concurrent-same-call", N: conN, Workers: 1, Make: func(r *pbt.Rand, i int) any {
				// everyone in the same function with inputs of the same size
				c := &indepCase{}
				o := genOp(r, r.N(300))
				for k := r.In(2, 8); k > 0; k-- {
					h := make([]op, 12)
					for j := range h {
						h[j] = o
						h[j].Seed, h[j].Pat, h[j].Base = r.U64(), r.N(len(gen.Patterns)), r.U32()
						h[j].After &^= collect
					}
					c.Hist = append(c.Hist, h)
				}
				return c
			}},
			{Name: "very-large", N: veryLarge, Workers: 1, Make: func(r *pbt.Rand, i int) any {
				c := &indepCase{}
				fn := longFns[i%len(longFns)]
				for k := 1 + r.N(4)/3; k > 0; k-- {
					h := genHist(r, pbt.Scale(2, 4))
					for j := range h {
						if j < 2 || r.Chance(3, 4) {
							h[j].Fn = fn
						}
						h[j].After &^= forget
						h[j].N = 1<<20 - 8 + r.N(1<<19)
						if j >= 2 || i >= len(longFns) && r.Chance(1, 4) {
							h[j].N = r.N(1 << uint(r.In(16, 22)))
						}
					}
					c.Hist = append(c.Hist, h)
				}
				return c
			}},
			{Name: "concurrent-large", N: big, Workers: 1, Make: func(r *pbt.Rand, i int) any {
				c := &indepCase{}
				for k := 0; k < 8; k++ {
					h := genHist(r, 3)
					for j := range h {
						h[j].N = r.N(300000)
					}
					c.Hist = append(c.Hist, h)
				}
				return c
			}},
		},
		New: func() any { return &indepCase{} },
		Hash: func(c any) uint64 {
			h := pbt.NewHash()
			for _, x := range c.(*indepCase).Hist {
				for _, o := range x {
					h = h.U64(uint64(o.Fn)).U64(uint64(o.N)).U64(o.Seed).U64(uint64(o.Base)).U64(uint64(o.After))
				}
			}
			return uint64(h)
		},
		Nontrivial: func(c any) bool { return len(c.(*indepCase).Hist[0]) >= 2 || c.(*indepCase).Times > 0 },
		Labels: func(c any) []string {
			l := []string{fmt.Sprintf("goroutines=%d", len(c.(*indepCase).Hist))}
			if c.(*indepCase).Times > 0 {
				l = append(l, "repeated hundreds of thousands of times")
			}
			seen := 0
			for _, h := range c.(*indepCase).Hist {
				for _, o := range h {
					seen |= o.After
				}
			}
			for i, n := range []string{"input overwritten", "result overwritten", "result appended to", "garbage collection", "call repeated", "shared input", "older results dropped", "repeated after a change in place", "after calls that panicked", "in a goroutine of its own"} {
				if seen>>uint(i)&1 == 1 {
					l = append(l, n)
				}
			}
			return l
		},
		Shrink: func(c any, try func(any) bool) {
			h := c.(*indepCase).Hist
			if c.(*indepCase).Fresh {
				return // timing decides
			}
			if t := c.(*indepCase).Times; t > 0 {
				for i := range h[0] {
					if len(h[0]) > 1 && try(&indepCase{Times: t, Hist: [][]op{append(append([]op{}, h[0][:i]...), h[0][i+1:]...)}}) {
						return
					}
				}
				return // what came before decides
			}
			for i := range h {
				if len(h) > 1 && try(&indepCase{Hist: append(append([][]op{}, h[:i]...), h[i+1:]...)}) {
					return
				}
			}
			with := func(i int, ops []op) *indepCase {
				d := append([][]op{}, h...)
				d[i] = ops
				return &indepCase{Hist: d}
			}
			for i := range h {
				for k := len(h[i]) / 2; k >= 1; k /= 2 {
					for j := 0; j+k <= len(h[i]) && k < len(h[i]); j += k {
						if try(with(i, append(append([]op{}, h[i][:j]...), h[i][j+k:]...))) {
							return
						}
					}
				}
				for j := range h[i] {
					for _, f := range []func(o *op){func(o *op) { o.After = 0 }, func(o *op) { o.N /= 2 }, func(o *op) { o.N-- }, func(o *op) { o.Base = 0 }, func(o *op) { o.Pat = 4 },
						func(o *op) { o.After &^= mutateInput }, func(o *op) { o.After &^= again | shared | collect | forget | tweak }} {
						ops := append([]op{}, h[i]...)
						f(&ops[j])
						if ops[j] != h[i][j] && ops[j].N >= 0 && try(with(i, ops)) {
							return
						}
					}
				}
			}
		},
		Check: func(w *pbt.Worker, c any) error {
			h := c.(*indepCase).Hist
			if t := c.(*indepCase).Times; t > 0 {
				n, err := repeated(h[0], t)
				w.Calls += n
				return err
			}
			if len(h) == 1 {
				m := &machine{}
				defer func() { w.Calls += m.n }()
				for i, o := range h[0] {
					if err := m.step(o); err != nil {
						return fmt.Errorf("step %d: %v", i, err)
					}
				}
				return nil
			}
			if c.(*indepCase).Fresh {
				w.Calls += int64(len(h))
				return inNewProcess(h)
			}
			n, err := concurrently(h, false)
			w.Calls += n
			return err
		}})
}

//go:build linux

// Command cost decides C23: what a call costs in time and memory grows no
// faster than its input, and nothing stays behind.
package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"slices"
	"syscall"
	"time"
	"unsafe"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"

	"verif/harness/api"
	"verif/harness/gen"
	"verif/harness/pbt"
	"verif/harness/ref"
)

type costCase struct {
	What string `json:"what"` // memory, leftovers, time
	Fn   int    `json:"fn"`
	Name string `json:"name"`
	Pat  int    `json:"pattern"`
	N    int    `json:"n"`
	Seed uint64 `json:"seed"`
	Base uint32 `json:"base"`
	// Order arranges the integers in a way that may be hard to sort.
	Order bool `json:"order,omitempty"`
}

// fn is a function with everything it needs for one input.
type fn struct {
	name  string
	block bool // takes a few integers only
	// results says that the function returns new memory, or may use as much.
	results bool
	// prep returns a call on the integers i..j of what was prepared.
	prep func(xs []uint32, base uint32, part int) func(k int)
}

const mem = 64 << 10

var fns []fn

func parts(xs []uint32, n int) [][]uint32 {
	var l [][]uint32
	for i := 0; i+n <= len(xs); i += n {
		l = append(l, xs[i:i+n:i+n])
	}
	return l
}

var sink []byte
var sinkNums []uint32

func init() {
	for _, w := range api.Writers {
		fns = append(fns, fn{w.Name, false, true, func(xs []uint32, base uint32, n int) func(int) {
			l := parts(xs, n)
			return func(k int) { sink = w.F(l[k]) }
		}})
	}
	for _, w := range api.DeltaWriters {
		fns = append(fns, fn{w.Name, false, true, func(xs []uint32, base uint32, n int) func(int) {
			l := parts(xs, n)
			return func(k int) { sink = w.F(l[k], base) }
		}})
	}
	for _, f := range api.Readers {
		fns = append(fns, fn{f.Name, false, false, func(xs []uint32, base uint32, n int) func(int) {
			var l [][]byte
			for _, p := range parts(xs, n) {
				l = append(l, ref.Encode(p))
			}
			out := make([]uint32, n)
			return func(k int) { f.F(n, l[k], out) }
		}})
	}
	for _, f := range api.DeltaReaders {
		fns = append(fns, fn{f.Name, false, false, func(xs []uint32, base uint32, n int) func(int) {
			var l [][]byte
			for _, p := range parts(xs, n) {
				l = append(l, ref.Encode(ref.Diffs(p, base)))
			}
			out := make([]uint32, n)
			return func(k int) { f.F(n, l[k], out, base) }
		}})
	}
	for _, f := range api.Encoders {
		fns = append(fns, fn{f.Name, true, false, func(xs []uint32, base uint32, n int) func(int) {
			l := parts(xs, 8)
			out := make([]byte, 32)
			return func(k int) { f.F(l[k%len(l)], out, base, 1+k%4) }
		}})
	}
	for _, f := range api.Decoders {
		fns = append(fns, fn{f.Name, true, false, func(xs []uint32, base uint32, n int) func(int) {
			var in [][]byte
			var ctrl []uint16
			for _, p := range parts(xs, 8) {
				in = append(in, append(ref.Data(p), make([]byte, 32)...)[:32:32])
				c := ref.Ctrl(p)
				ctrl = append(ctrl, uint16(c[0])|uint16(c[1])<<8)
			}
			out := make([]uint32, 8)
			return func(k int) { f.F(in[k%len(in)], out, ctrl[k%len(in)], base, 1+k%4) }
		}})
	}
	varint := func(name string, put func([]uint32, []byte, uint32) int, get func([]byte, []uint32, uint32) int) {
		fns = append(fns, fn{"Put" + name, false, false, func(xs []uint32, base uint32, n int) func(int) {
			l, out := parts(xs, n), make([]byte, 5*n)
			return func(k int) { put(l[k], out, base) }
		}}, fn{"Get" + name, false, false, func(xs []uint32, base uint32, n int) func(int) {
			var l [][]byte
			buf, out := make([]byte, 5*n), make([]uint32, n)
			for _, p := range parts(xs, n) {
				l = append(l, append([]byte{}, buf[:put(p, buf, base)]...))
			}
			return func(k int) { get(l[k], out, base) }
		}})
	}
	varint("Varint", func(x []uint32, o []byte, _ uint32) int { return util.PutVarint(x, o) }, func(d []byte, o []uint32, _ uint32) int { return util.GetVarint(d, o) })
	varint("DeltaVarint", util.PutDeltaVarint, util.GetDeltaVarint)
	fns = append(fns, fn{"Delta", false, false, func(xs []uint32, base uint32, n int) func(int) {
		l, out := parts(xs, n), make([]uint32, n)
		return func(k int) { util.Delta(l[k], out) }
	}}, fn{"SortUint32", false, true, func(xs []uint32, base uint32, n int) func(int) {
		l, out := parts(xs, n), make([]uint32, n)
		return func(k int) { copy(out, l[k]); util.SortUint32(out) }
	}}, fn{"GenUint32", false, true, func(xs []uint32, base uint32, n int) func(int) {
		return func(k int) { sinkNums = util.GenUint32(n) }
	}}, fn{"RandUint32", true, false, func(xs []uint32, base uint32, n int) func(int) {
		return func(k int) { util.RandUint32() }
	}})
}

// orders are arrangements that are hard for one way of sorting or another.
func order(r *pbt.Rand, xs []uint32) {
	n := len(xs)
	runs := 1 + r.N(1<<uint(r.N(6)))
	shape := r.N(6)
	for i := range xs {
		k := i * runs / n // the run
		at := i - (k*n+runs-1)/runs
		switch shape {
		case 0: // sorted runs
			xs[i] = uint32(at)*7 + uint32(k)
		case 1: // descending runs
			xs[i] = uint32(n-at) * 5
		case 2: // up and down
			xs[i] = uint32(at)
			if k%2 == 1 {
				xs[i] = uint32(n/runs - at)
			}
		case 3: // interleaved
			xs[i] = uint32(i%(runs+1))*uint32(n) + uint32(i)
		case 4: // few values
			xs[i] = uint32(r.N(runs + 1))
		case 5: // sorted, with a few exceptions
			xs[i] = uint32(i)
		}
	}
	if shape == 5 {
		for k := 0; k < runs; k++ {
			xs[r.N(n)] = r.U32()
		}
	}
	if r.Chance(1, 4) {
		slices.Reverse(xs)
	}
}

// cpu is the processor time of this thread.
func cpu() time.Duration {
	var ts syscall.Timespec
	if _, _, e := syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 3, uintptr(unsafe.Pointer(&ts)), 0); e != 0 {
		return time.Duration(time.Now().UnixNano())
	}
	return time.Duration(ts.Nano())
}

const (
	small = 256
	// What a number of a large input may cost in terms of one of a small
	// input, and what a call may cost however little it has to do.
	growth = 15
	fixed  = 50 * time.Microsecond
)

var uniform = slices.Index(gen.Patterns, "uniform")

func spend(call func(int), calls int) time.Duration {
	t := cpu()
	for k := 0; k < calls; k++ {
		call(k)
	}
	return cpu() - t
}

// voluntary is how often this thread has given up the processor to wait.
func voluntary() int64 {
	var u syscall.Rusage
	syscall.Getrusage(1 /* RUSAGE_THREAD */, &u)
	return int64(u.Nvcsw)
}

// process is what the process holds outside of the heap.
func process() (files, threads, space int) {
	count := func(dir string) int {
		es, _ := os.ReadDir(dir)
		return len(es)
	}
	b, _ := os.ReadFile("/proc/self/statm")
	fmt.Sscan(string(b), &space)
	return count("/proc/self/fd"), count("/proc/self/task"), space * os.Getpagesize()
}

func check(w *pbt.Worker, x any) error {
	c := x.(*costCase)
	f := fns[c.Fn%len(fns)]
	c.Name = f.name
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	xs := gen.Nums(pbt.NewRand(c.Seed, "cost", c.N), c.Pat, max(c.N, 8))
	if c.Order {
		order(pbt.NewRand(c.Seed, "order", c.N), xs)
	}
	switch c.What {
	case "memory":
		if f.block {
			c.N = 8
		}
		call := f.prep(xs, c.Base, c.N)
		call(0)
		limit := uint64(mem)
		if f.results {
			limit += 8 * uint64(c.N+c.N/4+4*c.N)
		}
		least := uint64(1 << 62)
		for k := 0; k < 3 && least > limit; k++ { // something else may allocate meanwhile
			var a, b runtime.MemStats
			runtime.ReadMemStats(&a)
			call(0)
			runtime.ReadMemStats(&b)
			least = min(least, b.TotalAlloc-a.TotalAlloc)
			w.Calls++
		}
		if least > limit {
			return fmt.Errorf("%s allocates %d bytes for %d integers", f.name, least, c.N)
		}
	case "leftovers":
		n := c.N
		many := gen.Nums(pbt.NewRand(c.Seed, "cost", c.N), c.Pat, max(n, 8)*512)
		call := f.prep(many, c.Base, n)
		const times = 1 << 16
		settle := func() (uint64, uint64) {
			sink, sinkNums = nil, nil
			runtime.GC()
			runtime.GC()
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			return m.HeapObjects, m.HeapAlloc
		}
		for k := 0; k < 512; k++ {
			call(k)
		}
		objects, bytes := settle()
		routines := runtime.NumGoroutine()
		files, threads, space := process()
		for k := 0; k < times; k++ {
			for i := k & 511 * n; i < (k&511+1)*n; i++ { // never the same integers twice
				many[i] += uint32(k)
			}
			call(k & 511)
		}
		w.Calls += times
		o, b := settle()
		if o > objects+times/8 || b > bytes+2<<20 {
			return fmt.Errorf("%s: after %d more calls (of %d integers), %d more objects and %d more bytes are in use", f.name, times, n, int64(o-objects), int64(b-bytes))
		}
		for k := 0; k < 100 && runtime.NumGoroutine() > routines+1; k++ {
			time.Sleep(10 * time.Millisecond)
		}
		if r := runtime.NumGoroutine(); r > routines+1 {
			return fmt.Errorf("%s: after %d more calls, there are %d more goroutines", f.name, times, r-routines)
		}
		if f, t, s := process(); f > files+100 || t > threads+100 || s > space+192<<20 {
			return fmt.Errorf("%s: after %d more calls (of %d integers), there are %d more open files, %d more threads and %d more bytes of address space", c.Name, times, n, f-files, t-threads, s-space)
		}
		runtime.KeepAlive(call)
	case "dropped":
		// calls on many integers, everything dropped: nothing of that size stays
		heap := func() uint64 {
			sink, sinkNums = nil, nil
			for k := 0; k < 3; k++ {
				runtime.GC()
			}
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			return m.HeapAlloc
		}
		f.prep(xs[:8:8], c.Base, 8)(0)
		xs = nil
		before := heap()
		for k := uint64(0); k < 3; k++ {
			n := c.N + int(k*c.Seed%1000)
			f.prep(gen.Nums(pbt.NewRand(c.Seed, "cost", int(k)), c.Pat, n), c.Base, n)(0)
			w.Calls++
		}
		if after := heap(); after > before+1<<19 {
			return fmt.Errorf("%s: after three calls on %d integers, with everything dropped, %d more bytes are in use", f.name, c.N, after-before)
		}
	case "time":
		if f.block {
			call, calls := f.prep(xs, c.Base, small), c.N/small
			best := time.Hour
			for k := 0; k < 5 && best > time.Duration(calls)*fixed; k++ {
				best = min(best, spend(call, calls))
			}
			w.Calls += int64(calls)
			if best > time.Duration(calls)*fixed {
				return fmt.Errorf("%s takes %v for a block", f.name, best/time.Duration(calls))
			}
			return nil
		}
		few := xs
		if f.name == "SortUint32" { // some orders are easy in small pieces
			few = gen.Nums(pbt.NewRand(c.Seed, "few", c.N), uniform, c.N)
		}
		little, one := f.prep(few, c.Base, small), f.prep(xs[:small], c.Base, 1)
		t := time.Hour
		waits := int64(small)
		for k := 0; k < 6 && (t > small*fixed || waits >= small/2); k++ {
			v := voluntary()
			t = min(t, spend(one, small))
			waits = min(waits, voluntary()-v)
			w.Calls += small
		}
		if waits >= small/2 {
			return fmt.Errorf("%s waits for something: it gave up the processor %d times in %d calls on one integer", f.name, waits, small)
		}
		if t > small*fixed {
			return fmt.Errorf("%s takes %v for one integer", f.name, t/small)
		}
		// Step by step: what grows too fast shows before it takes for ever.
		for n := min(c.N, 32*small); ; n = min(c.N, 4*n) {
			big := f.prep(xs[:n], c.Base, n)
			fine := func(a, b time.Duration) bool { return b <= a*growth+2*time.Millisecond }
			a, b := time.Duration(0), time.Hour
			for k := 0; k < 6 && !fine(a, b); k++ {
				a = max(a, spend(little, n/small))
				b = min(b, spend(big, 1))
				w.Calls += int64(n/small) + 1
				w.Progress()
			}
			if !fine(a, b) {
				return fmt.Errorf("%s takes %v for %d integers at once, but %v for as many, %d at a time", f.name, b, n, a, small)
			}
			if n == c.N {
				break
			}
		}
	}
	return nil
}

func main() {
	debug.SetGCPercent(400)
	mk := func(what string, n func(r *pbt.Rand) int) func(r *pbt.Rand, i int) any {
		return func(r *pbt.Rand, i int) any {
			return &costCase{What: what, Fn: i % len(fns), Name: fns[i%len(fns)].name, Pat: r.N(len(gen.Patterns)), N: n(r), Seed: r.U64(), Base: r.U32()}
		}
	}
	k := len(fns)
	pbt.Main(&pbt.Suite{
		Prop: "C23",
		Rule: "A case is a function, a pattern of integers and a count. memory: the bytes allocated by one call (runtime counters) against a bound of 64 KB, plus eight times the largest possible stream for functions that return new memory. leftovers: heap objects, heap bytes, goroutines, open files, threads and address space after 65536 further calls, each on other integers. dropped: heap bytes after three calls on hundreds of thousands of integers whose inputs and results are dropped. time: processor time of a call on some hundred thousand integers against that of as many integers 256 at a time (at most 15 times, the most favourable of several measurements), and of calls on a single integer or block, which must not wait for anything either; for sorting, also on orders that are hard to sort. Everything runs on one goroutine. Non-trivial: the integers differ; distinct by hash of the case.",
		Sections: []pbt.Section{
			{Name: "time", N: k * pbt.Scale(6, 100), Workers: 1, Make: mk("time", func(r *pbt.Rand) int { return 1 << uint(16+r.N(5)) })},
			{Name: "orders", N: pbt.Scale(150, 5000), Workers: 1, Make: func(r *pbt.Rand, i int) any {
				k := slices.IndexFunc(fns, func(f fn) bool { return f.name == "SortUint32" })
				return &costCase{What: "time", Fn: k, Name: fns[k].name, N: 1 << uint(14+r.N(4)), Seed: r.U64(), Order: true}
			}},
			{Name: "memory", N: k * pbt.Scale(24, 400), Workers: 1, Make: mk("memory", func(r *pbt.Rand) int { return 1 + r.N(1<<uint(1+r.N(20))) })},
			{Name: "dropped", N: k * pbt.Scale(3, 40), Workers: 1, Make: mk("dropped", func(r *pbt.Rand) int { return 1<<19 + r.N(1<<uint(17+r.N(4))) })},
			{Name: "leftovers", N: k * pbt.Scale(3, 36), Workers: 1, Make: mk("leftovers", func(r *pbt.Rand) int { return 1 + r.N([]int{1, 8, 100}[r.N(3)]) })},
		},
		New:   func() any { return &costCase{} },
		Check: check,
		Hash: func(x any) uint64 {
			c := x.(*costCase)
			return uint64(pbt.NewHash().U64(uint64(len(c.What))).U64(uint64(c.Fn)).U64(uint64(c.Pat)).U64(uint64(c.N)).U64(c.Seed))
		},
		Nontrivial: func(x any) bool { return x.(*costCase).N > 1 && gen.Patterns[x.(*costCase).Pat] != "constant" },
		Labels:     func(x any) []string { return []string{x.(*costCase).What + ": " + x.(*costCase).Name} },
		Shrink:     func(x any, try func(any) bool) {},
	})
}

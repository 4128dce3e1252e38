package main

import (
	"bytes"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"unsafe"

	"verif/harness/api"
	"verif/harness/gen"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// Streams longer than 2^31 (and, in the thorough tier, 2^32) bytes. They are
// checked without keeping more than one copy of the sequence, one stream and
// one output at a time.
const hugeMin = 1 << 27

var hugeOnce sync.Once
var hugeList []int

func hugeSizes() []int {
	hugeOnce.Do(func() {
		if unsafe.Sizeof(uintptr(0)) < 8 || slow() || os.Getenv("PBT_NOHUGE") != "" {
			return
		}
		gb := memAvailable()
		sizes, need := []int{1<<29 + 1<<23 + 77}, []int{14}
		if pbt.Thorough() {
			sizes, need = append(sizes, 1<<30+1<<24+75), append(need, 24)
		}
		for i, n := range sizes {
			if gb >= need[i] {
				hugeList = append(hugeList, n)
			} else {
				pbt.Note("skipped %d integers: %d GB of memory available, %d wanted", n, gb, need[i])
			}
		}
	})
	return hugeList
}

func memAvailable() int {
	b, _ := os.ReadFile("/proc/meminfo")
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) > 1 && f[0] == "MemAvailable:" {
			kb, _ := strconv.Atoi(f[1])
			return kb >> 20
		}
	}
	return 0
}

// pieces runs f over [0, n) split in aligned pieces, in parallel.
func pieces(n int, f func(lo, hi int) error) error {
	const step = 1 << 20
	var wg sync.WaitGroup
	var mu sync.Mutex
	next, first := 0, error(nil)
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				lo := next
				next += step
				stop := lo >= n || first != nil
				mu.Unlock()
				if stop {
					return
				}
				hi := lo + step
				if hi > n {
					hi = n
				}
				if err := f(lo, hi); err != nil {
					mu.Lock()
					first = err
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	return first
}

const hugeBase = 0xfffffff0

// hugeDiff is difference i of the huge sequence from hugeBase.
func hugeDiff(i int) uint32 {
	if i == 0 {
		return gen.HugeAt(0) - hugeBase
	}
	return gen.HugeAt(i) - gen.HugeAt(i-1)
}

// hugeCompare compares a stream with the reference encoding of at(0..n-1).
func hugeCompare(st []byte, n int, at func(int) uint32) error {
	const step = 1 << 20 // as in pieces
	off := make([]int, n/step+2)
	pieces(n, func(lo, hi int) error {
		t := 0
		for i := lo; i < hi; i++ {
			t += ref.ByteLen(at(i))
		}
		off[lo/step+1] = t
		return nil
	})
	off[0] = (n + 3) / 4
	for i := 1; i < len(off); i++ {
		off[i] += off[i-1]
	}
	if total := off[len(off)-1]; total != len(st) {
		return fmt.Errorf("%d bytes, want %d", len(st), total)
	}
	return pieces(n, func(lo, hi int) error {
		pos := off[lo/step]
		buf := make([]uint32, 0, 1<<12)
		for ; lo < hi; lo += len(buf) {
			buf = buf[:0]
			for i := lo; i < hi && len(buf) < cap(buf); i++ {
				buf = append(buf, at(i))
			}
			ctrl, data := ref.Ctrl(buf), ref.Data(buf)
			if !bytes.Equal(ctrl, st[lo/4:lo/4+len(ctrl)]) {
				return fmt.Errorf("control bytes differ near integer %d", lo)
			}
			if !bytes.Equal(data, st[pos:pos+len(data)]) {
				return fmt.Errorf("data bytes differ near integer %d (byte %d)", lo, pos)
			}
			pos += len(data)
		}
		return nil
	})
}

// hugeStream builds the reference stream of at(0..n-1).
func hugeStream(n int, at func(int) uint32) []byte {
	st := make([]byte, (n+3)/4+4*n)
	pos := (n + 3) / 4
	for i := 0; i < n; i++ {
		x := at(i)
		l := ref.ByteLen(x)
		st[i/4] |= byte(l-1) << uint(2*(i%4))
		for j := 0; j < l; j++ {
			st[pos] = byte(x >> uint(8*j))
			pos++
		}
	}
	return st[:pos:pos]
}

func hugeOut(out []uint32) error {
	return pieces(len(out), func(lo, hi int) error {
		for i := lo; i < hi; i++ {
			if out[i] != gen.HugeAt(i) {
				return fmt.Errorf("integer %d of %d is %#x, want %#x", i, len(out), out[i], gen.HugeAt(i))
			}
		}
		return nil
	})
}

func poison(out []uint32) {
	pieces(len(out), func(lo, hi int) error {
		for i := lo; i < hi; i++ {
			out[i] = ^gen.HugeAt(i)
		}
		return nil
	})
}

func hugeIn(n int) []uint32 {
	debug.FreeOSMemory()
	xs := make([]uint32, n)
	gen.HugeFill(xs)
	return xs
}

// hugeEach runs every writer, checks its stream, and returns the last stream.
func hugeRoundTrip(w *pbt.Worker, n int) error {
	defer debug.FreeOSMemory()
	xs := hugeIn(n)
	out := make([]uint32, n)
	for k, rd := range api.Readers { // writer k to reader k
		wr := api.Writers[k%len(api.Writers)]
		st := wr.F(xs)
		poison(out)
		rd.F(n, st, out)
		w.Calls += 2
		w.Progress()
		if err := hugeOut(out); err != nil {
			return fmt.Errorf("%s -> %s: %v", wr.Name, rd.Name, err)
		}
		st = nil
		debug.FreeOSMemory()
	}
	return nil
}

func hugeDeltaRoundTrip(w *pbt.Worker, n int) error {
	defer debug.FreeOSMemory()
	xs := hugeIn(n)
	out := make([]uint32, n)
	for k, rd := range api.DeltaReaders {
		wr := api.DeltaWriters[k%len(api.DeltaWriters)]
		st := wr.F(xs, hugeBase)
		poison(out)
		rd.F(n, st, out, hugeBase)
		w.Calls += 2
		w.Progress()
		if err := hugeOut(out); err != nil {
			return fmt.Errorf("%s -> %s: %v", wr.Name, rd.Name, err)
		}
		st = nil
		debug.FreeOSMemory()
	}
	return nil
}

func hugeBytes(w *pbt.Worker, n int) error {
	defer debug.FreeOSMemory()
	xs := hugeIn(n)
	for _, wr := range api.Writers {
		w.Calls++
		w.Progress()
		if err := hugeCompare(wr.F(xs), n, gen.HugeAt); err != nil {
			return fmt.Errorf("%s: %v", wr.Name, err)
		}
		debug.FreeOSMemory()
	}
	return nil
}

func hugeDeltaBytes(w *pbt.Worker, n int) error {
	defer debug.FreeOSMemory()
	xs := hugeIn(n)
	for _, wr := range api.DeltaWriters {
		w.Calls++
		w.Progress()
		if err := hugeCompare(wr.F(xs, hugeBase), n, hugeDiff); err != nil {
			return fmt.Errorf("%s: %v", wr.Name, err)
		}
		debug.FreeOSMemory()
	}
	return nil
}

func hugeRead(w *pbt.Worker, n int) error {
	defer debug.FreeOSMemory()
	debug.FreeOSMemory()
	st, out := hugeStream(n, gen.HugeAt), make([]uint32, n)
	for _, rd := range api.Readers {
		w.Calls++
		w.Progress()
		poison(out)
		rd.F(n, st, out)
		if err := hugeOut(out); err != nil {
			return fmt.Errorf("%s: %v", rd.Name, err)
		}
	}
	return nil
}

func hugeDeltaRead(w *pbt.Worker, n int) error {
	defer debug.FreeOSMemory()
	debug.FreeOSMemory()
	st, out := hugeStream(n, hugeDiff), make([]uint32, n)
	for _, rd := range api.DeltaReaders {
		w.Calls++
		w.Progress()
		poison(out)
		rd.F(n, st, out, hugeBase)
		if err := hugeOut(out); err != nil {
			return fmt.Errorf("%s: %v", rd.Name, err)
		}
	}
	return nil
}

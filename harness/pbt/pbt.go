package pbt

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Section is one enumeration or random campaign of a suite.
type Section struct {
	Name    string
	N       int // number of cases
	Workers int // 0: all workers
	Make    func(r *Rand, i int) any
}

// Suite is one property as an executable check over generated cases.
type Suite struct {
	Prop       string
	Rule       string // how cases are made, what makes one non-trivial
	Sections   []Section
	New        func() any // empty case, for replay
	Check      func(w *Worker, c any) error
	Hash       func(c any) uint64
	Nontrivial func(c any) bool
	Labels     func(c any) []string
	// Shrink proposes simpler variants of c; it must return once try says true.
	Shrink func(c any, try func(any) bool)
}

// Worker carries per-goroutine state of a run.
type Worker struct {
	ID        int
	Calls     int64 // calls made into the code under test
	ExtraEval int64 // evaluations inside batch cases, beyond one per case
	ExtraDist int64 // of those, distinct and non-trivial by construction
	Scratch   map[string]any
	stamp     atomic.Int64
	sec, idx  atomic.Int64
}

// Progress says that a long case is still moving.
func (w *Worker) Progress() { w.stamp.Store(time.Now().UnixNano()) }

// Found reports a failure inside a batch case as a smaller, single case.
type Found struct {
	Case any
	Msg  string
}

func (f *Found) Error() string { return f.Msg }

type Failure struct {
	Blocked  string          `json:"blocked,omitempty"` // a call that waits for ever
	Section  string          `json:"section"`
	Index    int             `json:"index"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
	Original json.RawMessage `json:"original_case,omitempty"`
	Shrinks  int             `json:"shrink_steps"`
}

type SectionStat struct {
	Name       string  `json:"name"`
	Cases      int64   `json:"cases"`
	Nontrivial int64   `json:"nontrivial"`
	Wall       float64 `json:"wall_s"`
}

type Result struct {
	Status   string           `json:"status"` // ok, fail, stuck
	Property string           `json:"property"`
	Config   string           `json:"config"`
	Seed     uint64           `json:"seed"`
	Tier     string           `json:"tier"`
	Rule     string           `json:"rule"`
	Evals    int64            `json:"evaluations"`
	Distinct int64            `json:"distinct_nontrivial"`
	Calls    int64            `json:"api_calls"`
	Labels   map[string]int64 `json:"labels"`
	Sections []SectionStat    `json:"sections"`
	Samples  []any            `json:"samples"`
	Notes    []string         `json:"notes,omitempty"`
	Failure  *Failure         `json:"failure,omitempty"`
	Wall     float64          `json:"wall_s"`
}

func Seed() uint64 {
	s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		s = 1
	}
	return s
}
func Tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}
func Thorough() bool { return Tier() == "thorough" }

// Config is the build or run configuration the driver started us in.
func Config() string { return os.Getenv("PBT_CONFIG") }

// Scale returns q in the quick tier and t in the thorough one.
func Scale(q, t int) int {
	if Thorough() {
		return t
	}
	return q
}

// Slow tells whether this is an interpreted or emulated target, where large
// inputs take too long.
func Slow() bool { return os.Getenv("PBT_SLOW") != "" }

// PBT_DIV=n runs every n-th part of each section only: one random case out of
// n neighbours, and never fewer than minCases.
const minCases = 40

func (s *Section) cases() int {
	if d, _ := strconv.Atoi(os.Getenv("PBT_DIV")); d > 1 {
		n := (s.N + d - 1) / d
		if n < minCases {
			n = minCases
		}
		if n < s.N {
			return n
		}
	}
	return s.N
}

// pick maps the k-th of n cases to an index of the section.
func (s *Section) pick(k, n int) int {
	if n >= s.N {
		return k
	}
	lo, hi := k*s.N/n, (k+1)*s.N/n
	if strconv.IntSize == 32 {
		lo, hi = int(int64(k)*int64(s.N)/int64(n)), int(int64(k+1)*int64(s.N)/int64(n))
	}
	return lo + NewRand(Seed(), s.Name+"/pick", k).N(hi-lo)
}

var notes struct {
	sync.Mutex
	l []string
}

func Note(format string, a ...any) {
	notes.Lock()
	notes.l = append(notes.l, fmt.Sprintf(format, a...))
	notes.Unlock()
}

func marshal(v any) json.RawMessage {
	b, err := json.Marshal(v)
	if err != nil {
		b, _ = json.Marshal(fmt.Sprint(err))
	}
	return b
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil { // plain data always marshals: something overwrote this process's memory
		fmt.Fprintln(os.Stderr, "pbt: corrupt result:", err)
		os.Exit(7)
	}
	err = os.WriteFile(path, b, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, "pbt:", err)
		os.Exit(3)
	}
}

// safe runs the check and turns a panic into a failure.
func safe(s *Suite, w *Worker, c any) (err error) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			err = fmt.Errorf("panic: %v\n%s", p, st)
		}
	}()
	return s.Check(w, c)
}

const shards = 64

type set struct {
	mu [shards]sync.Mutex
	m  [shards]map[uint64]struct{}
	n  atomic.Int64
}

const maxDistinct = 6_000_000

func (s *set) add(h uint64) {
	if s.n.Load() >= maxDistinct {
		return
	}
	k := h % shards
	s.mu[k].Lock()
	if s.m[k] == nil {
		s.m[k] = map[uint64]struct{}{}
	}
	if _, ok := s.m[k][h]; !ok {
		s.m[k][h] = struct{}{}
		s.n.Add(1)
	}
	s.mu[k].Unlock()
}

// Main runs the suite named by PBT_PROP (or the only one).
func Main(suites ...*Suite) {
	var s *Suite
	for _, x := range suites {
		if x.Prop == os.Getenv("PBT_PROP") || len(suites) == 1 {
			s = x
		}
	}
	if s == nil {
		fmt.Fprintln(os.Stderr, "pbt: no suite", os.Getenv("PBT_PROP"))
		os.Exit(3)
	}
	debug.SetPanicOnFault(true)
	if p := os.Getenv("PBT_REPLAY"); p != "" {
		replay(s, p)
	}
	if d := os.Getenv("PBT_DUMP"); d != "" {
		sec, i := parseID(s, d)
		writeJSON(os.Getenv("PBT_OUT"), map[string]any{"section": sec.Name, "index": i, "case": sec.Make(NewRand(Seed(), sec.Name, i), i)})
		os.Exit(0)
	}
	run(s)
}

func parseID(s *Suite, d string) (*Section, int) {
	k := strings.LastIndex(d, ":")
	i, _ := strconv.Atoi(d[k+1:])
	for j := range s.Sections {
		if s.Sections[j].Name == d[:k] {
			return &s.Sections[j], i
		}
	}
	fmt.Fprintln(os.Stderr, "pbt: no section", d)
	os.Exit(3)
	return nil, 0
}

func replay(s *Suite, path string) {
	b, err := os.ReadFile(path)
	var f struct {
		Case json.RawMessage `json:"case"`
	}
	if err == nil {
		err = json.Unmarshal(b, &f)
	}
	c := s.New()
	if err == nil {
		err = json.Unmarshal(f.Case, c)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "pbt: replay:", err)
		os.Exit(3)
	}
	w := &Worker{Scratch: map[string]any{}}
	if err := safe(s, w, c); err != nil {
		fmt.Println("REPLAY-FAIL:", err)
		os.Exit(1)
	}
	fmt.Println("REPLAY-OK")
	os.Exit(0)
}

var minutes = regexp.MustCompile(`(?s)^goroutine \d+ \[[^\]\n]*, \d+ minutes[^\]\n]*\]:\n`)

// waiting gives the stack of a goroutine that has been waiting for at least a
// minute inside the library.
func waiting() string {
	b := make([]byte, 1<<20)
	b = b[:runtime.Stack(b, true)]
	for _, g := range strings.Split(string(b), "\n\n") {
		if first, _, _ := strings.Cut(g, "verif/harness"); minutes.MatchString(g) && strings.Contains(first, "streamvbyte-simdgo/pkg/") {
			if len(g) > 1200 {
				g = g[:1200]
			}
			return g
		}
	}
	return ""
}

func run(s *Suite) {
	start := time.Now()
	res := &Result{Status: "ok", Property: s.Prop, Config: Config(), Seed: Seed(), Tier: Tier(), Rule: s.Rule, Labels: map[string]int64{}}
	out := os.Getenv("PBT_OUT")
	nw := runtime.GOMAXPROCS(0)
	workers := make([]*Worker, nw)
	for i := range workers {
		workers[i] = &Worker{ID: i, Scratch: map[string]any{}}
		workers[i].sec.Store(-1)
	}
	var logf *os.File
	if p := os.Getenv("PBT_LOG"); p != "" {
		logf, _ = os.OpenFile(p, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	}
	go func() { // a case that makes no progress for a very long time
		for range time.Tick(5 * time.Second) {
			for _, w := range workers {
				t := w.stamp.Load()
				k := w.sec.Load()
				if k < 0 || t <= 0 || time.Since(time.Unix(0, t)) < 10*time.Second {
					continue
				}
				idle, blocked := time.Since(time.Unix(0, t)), ""
				if idle < 25*time.Second || idle > 80*time.Second {
					runtime.GC() // this is when the runtime notes since when goroutines wait
					blocked = waiting()
				}
				if blocked != "" || idle > 150*time.Second {
					res := &Result{Status: "stuck", Property: s.Prop, Failure: &Failure{Section: s.Sections[k].Name, Index: int(w.idx.Load()), Message: "no progress", Blocked: blocked}}
					writeJSON(out, res)
					os.Exit(4)
				}
			}
		}
	}()
	dist := &set{}
	only := os.Getenv("PBT_SECTIONS")
	var labMu sync.Mutex
	for si := range s.Sections {
		sec := &s.Sections[si]
		if only != "" && !strings.Contains(","+only+",", ","+sec.Name+",") {
			continue
		}
		t0 := time.Now()
		var next, nontriv, done atomic.Int64
		var bad atomic.Int64
		cases := sec.cases()
		bad.Store(int64(cases))
		var mu sync.Mutex
		var fail *Failure
		var failCase any
		k := nw
		if sec.Workers > 0 && sec.Workers < k {
			k = sec.Workers
		}
		var wg sync.WaitGroup
		for wi := 0; wi < k; wi++ {
			w := workers[wi]
			wg.Add(1)
			go func() {
				defer wg.Done()
				debug.SetPanicOnFault(true)
				lab := map[string]int64{}
				for {
					k := next.Add(1) - 1
					if k >= bad.Load() {
						break
					}
					i := int64(sec.pick(int(k), cases))
					w.idx.Store(i)
					w.sec.Store(int64(si))
					w.stamp.Store(time.Now().UnixNano())
					if logf != nil {
						fmt.Fprintf(logf, "%d %s:%d\n", w.ID, sec.Name, i)
					}
					c := sec.Make(NewRand(res.Seed, sec.Name, int(i)), int(i))
					err := safe(s, w, c)
					done.Add(1)
					if s.Nontrivial == nil || s.Nontrivial(c) {
						nontriv.Add(1)
						if s.Hash != nil {
							dist.add(s.Hash(c))
						}
					}
					if s.Labels != nil {
						for _, l := range s.Labels(c) {
							lab[l]++
						}
					}
					if err != nil {
						var f *Found
						fc := c
						if errors.As(err, &f) {
							fc = f.Case
						}
						mu.Lock()
						if k < bad.Load() {
							bad.Store(k)
							fail = &Failure{Section: sec.Name, Index: int(i), Message: err.Error(), Case: marshal(fc)}
							failCase = fc
						}
						mu.Unlock()
					}
				}
				w.sec.Store(-1)
				labMu.Lock()
				for l, n := range lab {
					res.Labels[l] += n
				}
				labMu.Unlock()
			}()
		}
		wg.Wait()
		res.Evals += done.Load()
		res.Sections = append(res.Sections, SectionStat{sec.Name, done.Load(), nontriv.Load(), time.Since(t0).Seconds()})
		sample(s, sec, res)
		if fail != nil {
			res.Status, res.Failure = "fail", fail
			finish(s, res, workers, dist, start)
			writeJSON(out, res) // before shrinking, which may crash
			shrink(s, failCase, fail)
			break
		}
	}
	finish(s, res, workers, dist, start)
	writeJSON(out, res)
	if res.Status != "ok" {
		os.Exit(1)
	}
	os.Exit(0)
}

func finish(s *Suite, res *Result, workers []*Worker, dist *set, start time.Time) {
	var e, d, c int64
	for _, w := range workers {
		e += w.ExtraEval
		d += w.ExtraDist
		c += w.Calls
		w.ExtraEval = 0
	}
	res.Evals += e
	res.Distinct = dist.n.Load() + d
	res.Calls = c
	res.Wall = time.Since(start).Seconds()
	res.Notes = notes.l
}

func sample(s *Suite, sec *Section, res *Result) {
	if len(res.Samples) >= 12 || sec.N == 0 {
		return
	}
	for try := 0; try < 40; try++ {
		i := int(mix(uint64(try)+77) % uint64(sec.N))
		c := sec.Make(NewRand(res.Seed, sec.Name, i), i)
		if s.Nontrivial != nil && !s.Nontrivial(c) {
			continue
		}
		b := marshal(c)
		if len(b) > 1500 {
			if try < 39 {
				continue
			}
			res.Samples = append(res.Samples, map[string]any{"section": sec.Name, "index": i, "case_prefix": string(b[:300]), "case_bytes": len(b)})
			return
		}
		res.Samples = append(res.Samples, map[string]any{"section": sec.Name, "index": i, "case": b})
		return
	}
}

func shrink(s *Suite, c any, f *Failure) {
	if s.Shrink == nil {
		return
	}
	w := &Worker{Scratch: map[string]any{}}
	budget := 20000
	deadline := time.Now().Add(60 * time.Second)
	cur, msg, steps := c, "", 0
	for improved := true; improved && budget > 0; {
		improved = false
		s.Shrink(cur, func(cand any) bool {
			if budget <= 0 || time.Now().After(deadline) {
				budget = 0
				return true
			}
			budget--
			if err := safe(s, w, cand); err != nil {
				cur, msg, improved = cand, err.Error(), true
				steps++
				return true
			}
			return false
		})
	}
	if steps > 0 {
		f.Original, f.Case, f.Message, f.Shrinks = f.Case, marshal(cur), msg, steps
		if len(f.Original) > 1<<20 {
			f.Original = nil
		}
	}
}

// ShrinkU32s proposes simpler versions of xs.
func ShrinkU32s(xs []uint32, try func([]uint32) bool) bool {
	n := len(xs)
	for k := n; k >= 1; k /= 2 { // delete chunks
		for i := 0; i+k <= n; i += k {
			c := make([]uint32, 0, n-k)
			c = append(append(c, xs[:i]...), xs[i+k:]...)
			if try(c) {
				return true
			}
		}
		if k > 1 && k/2 == 0 {
			break
		}
	}
	set := func(i int, v uint32) bool {
		c := append([]uint32(nil), xs...)
		c[i] = v
		return try(c)
	}
	for i, x := range xs {
		for _, v := range []uint32{0, 1, 1 << 8, 1 << 16, 1 << 24, x & 0xff, x & 0xffff, x & 0xffffff, x >> 1, x - 1} {
			if v < x && set(i, v) {
				return true
			}
		}
	}
	return false
}

// ShrinkU32 proposes simpler values of x.
func ShrinkU32(x uint32, try func(uint32) bool) bool {
	for _, v := range []uint32{0, 1, x >> 16, x >> 8, x >> 1, x - 1} {
		if v < x && try(v) {
			return true
		}
	}
	return false
}

// SortedKeys is for stable output of label maps.
func SortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// ShrinkLanes proposes simpler blocks of the same number of integers.
func ShrinkLanes(xs []uint32, try func([]uint32) bool) bool {
	for i, x := range xs {
		i := i
		if ShrinkU32(x, func(v uint32) bool {
			c := append([]uint32(nil), xs...)
			c[i] = v
			return try(c)
		}) {
			return true
		}
		for _, v := range []uint32{1 << 8, 1 << 16, 1 << 24} {
			if v < x {
				c := append([]uint32(nil), xs...)
				c[i] = v
				if try(c) {
					return true
				}
			}
		}
	}
	return false
}

// Command host decides C18: generated host programs (built by the driver, one
// per subset of the library's packages, in PBT_HOSTS) are run next to the same
// program without the import, on generated flag sets, argument vectors and
// environments. Everything they do has to be the same.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif/harness/pbt"
)

type flagSpec struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Def  string `json:"default"`
}

type hostCase struct {
	Subset  int        `json:"subset"` // bit k: package k of Packages
	Imports []string   `json:"imports"`
	Flags   []flagSpec `json:"flags"`
	Argv    []string   `json:"argv"`
	Env     []string   `json:"env"`
	Use     bool       `json:"calls_the_library"`
	Input   string     `json:"standard_input"`
	Handler int        `json:"error_handling"` // flag.ErrorHandling
	Name    string     `json:"program_name,omitempty"`
	Term    int        `json:"terminals,omitempty"` // bit k: standard file k is a terminal
	Files   []string   `json:"files,omitempty"`     // in its directory
	End     string     `json:"end,omitempty"`       // how it ends, other than by returning
}

var (
	dir      = os.Getenv("PBT_HOSTS")
	packages []string
	masks    []int
	names    []string // flag names worth trying
	envs     []string
	raws     []string // string constants of the sources, given as arguments as they are
)

func load() {
	var l struct {
		Packages, Names, Envs, Raws []string
	}
	b, err := os.ReadFile(filepath.Join(dir, "hosts.json"))
	if err == nil {
		err = json.Unmarshal(b, &l)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "host:", err)
		os.Exit(3)
	}
	packages, names, envs, raws = l.Packages, l.Names, l.Envs, l.Raws
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if k, err := strconv.Atoi(strings.TrimPrefix(e.Name(), "host-")); err == nil && k > 0 {
			masks = append(masks, k)
		}
	}
	sort.Ints(masks)
}

type outcome struct {
	Out, Err string
	Code     int
}

func runHost(mask int, c *hostCase, scratch string) outcome {
	spec, _ := json.Marshal(map[string]any{"flags": c.Flags, "use": c.Use, "handler": c.Handler, "end": c.End})
	cmd := exec.Command(filepath.Join(dir, fmt.Sprintf("host-%d", mask)))
	name := c.Name
	if name == "" {
		name = "/usr/bin/program"
	}
	cmd.Args = append([]string{name}, c.Argv...)
	cmd.Env = append([]string{"HOST_SPEC=" + string(spec), "HOME=" + scratch, "TMPDIR=" + scratch}, c.Env...)
	cmd.Dir = scratch
	cmd.Stdin = strings.NewReader(c.Input)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	var tty *terminal
	if c.Term != 0 {
		tty = openTerminal()
	}
	if tty != nil {
		if c.Term&1 != 0 {
			cmd.Stdin = tty.slave
			end := "\x04"
			if !strings.HasSuffix(c.Input, "\n") && c.Input != "" {
				end = "\x04\x04"
			}
			tty.write(c.Input + end)
		}
		if c.Term&2 != 0 {
			cmd.Stdout = tty.slave
		}
		if c.Term&4 != 0 && c.End == "" { // traces are compared apart from the output
			cmd.Stderr = tty.slave
		}
	}
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Run()
	t.Stop()
	r := outcome{Out: o.String(), Err: e.String()}
	if tty != nil {
		r.Out += tty.close()
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		if r.Code = ee.ExitCode(); r.Code < 0 {
			if s, ok := ee.Sys().(syscall.WaitStatus); ok {
				r.Code = -int(s.Signal())
			}
		}
	} else if err != nil {
		fmt.Fprintln(os.Stderr, "host: cannot run:", err)
		os.Exit(3)
	}
	if c.End != "" {
		r.Err = traces(r.Err)
	}
	return r
}

var numbers = regexp.MustCompile(`(?m)0x[0-9a-f]+|pc=\S+|goroutine \d+|, \d+ minutes| gp=\S+ m=\S+( mp=\S+)?`)

// traces drops what differs between runs from what a program says when it
// dies: what remains are the messages and how many goroutines are listed.
func traces(s string) string {
	head, rest, _ := strings.Cut(s, "\n\n")
	head = numbers.ReplaceAllString(head, "#")
	if strings.Contains(s, "SIGQUIT") {
		return strings.SplitN(head, "\n", 2)[0] // of any thread
	}
	for _, l := range strings.Split(rest, "\n") {
		if strings.HasPrefix(l, "goroutine ") {
			head += "\n" + numbers.ReplaceAllString(l, "goroutine")
		}
	}
	return head
}

// ends are ways to end. Some print a trace, the extent of which is a setting.
var ends = []string{"panic elsewhere", "nil", "deadlock", "fatal", "exit", "term", "int", "hup", "usr1", "usr2", "quit", "pipe"}

func cut(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// apart cuts two outputs down to where they differ.
func apart(a, b string) (string, string) {
	for {
		k, l := strings.IndexByte(a, '\n'), strings.IndexByte(b, '\n')
		if k < 0 || l < 0 || a[:k] != b[:l] {
			return cut(a), cut(b)
		}
		a, b = a[k+1:], b[l+1:]
	}
}

func check(w *pbt.Worker, x any) error {
	c := x.(*hostCase)
	scratch, _ := w.Scratch["dir"].(string)
	if scratch == "" {
		var err error
		if scratch, err = os.MkdirTemp("", "host"); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		w.Scratch["dir"] = scratch
	}
	for _, f := range c.Files {
		os.WriteFile(filepath.Join(scratch, f), []byte("something\n"), 0o666)
	}
	defer func() {
		for _, f := range c.Files {
			os.RemoveAll(filepath.Join(scratch, f))
		}
	}()
	want, got := runHost(0, c, scratch), runHost(c.Subset, c, scratch)
	w.Calls += 2
	switch {
	case got.Code != want.Code:
		return fmt.Errorf("exit status %d with the import, %d without; standard error %q, without the import %q", got.Code, want.Code, cut(got.Err), cut(want.Err))
	case got.Out != want.Out:
		a, b := apart(got.Out, want.Out)
		return fmt.Errorf("standard output with the import %q, without %q", a, b)
	case got.Err != want.Err:
		a, b := apart(got.Err, want.Err)
		return fmt.Errorf("standard error with the import %q, without %q", a, b)
	}
	for _, f := range c.Files {
		if b, err := os.ReadFile(filepath.Join(scratch, f)); err != nil || string(b) != "something\n" {
			return fmt.Errorf("the program changed the file %q: %q %v", f, b, err)
		}
		os.Remove(filepath.Join(scratch, f))
	}
	if es, _ := os.ReadDir(scratch); len(es) > 0 {
		n := es[0].Name()
		os.RemoveAll(filepath.Join(scratch, n))
		return fmt.Errorf("the program left a file %q", n)
	}
	return nil
}

// settings that hide extensions of the processor from the runtime, and others
var godebugs = []string{"cpu.avx=off,cpu.avx2=off", "cpu.avx2=off", "cpu.avx=off", "cpu.all=off", "cpu.sse41=off,cpu.ssse3=off,cpu.popcnt=off,cpu.bmi2=off", "gctrace=0", "randautoseed=0"}

func pickName(r *pbt.Rand) string {
	switch r.N(4) {
	case 0:
		return string(rune('a' + r.N(26)))
	case 1:
		return fmt.Sprintf("x%d", r.N(1000))
	}
	return names[r.N(len(names))]
}

func value(r *pbt.Rand, kind string) string {
	switch {
	case r.Chance(1, 12):
		return "nonsense"
	case kind == "bool":
		return []string{"true", "false", "1", "T"}[r.N(4)]
	case kind == "int":
		return fmt.Sprint(r.N(2000) - 1000)
	case kind == "duration":
		return []string{"1s", "2h3m", "0"}[r.N(3)]
	case kind == "float":
		return []string{"1.5", "-2e9", "0"}[r.N(3)]
	}
	return []string{"", "a b", "-x", "file.s", "=", "--"}[r.N(6)]
}

func mkWith(r *pbt.Rand, mask int, flags []string) *hostCase {
	c := &hostCase{Subset: mask, Use: r.Chance(1, 3)}
	for k, p := range packages {
		if mask>>uint(k)&1 == 1 {
			c.Imports = append(c.Imports, p)
		}
	}
	if r.Chance(1, 3) {
		c.Handler = r.N(3)
	} else {
		c.Handler = 1 // ExitOnError, as flag.CommandLine has it
	}
	kinds := []string{"bool", "int", "string", "duration", "float"}
	seen := map[string]bool{}
	for _, n := range flags {
		if !seen[n] {
			seen[n] = true
			k := kinds[r.N(len(kinds))]
			d := value(r, k)
			if d == "nonsense" && k != "string" {
				d = map[string]string{"bool": "false", "int": "7", "duration": "1s", "float": "1"}[k]
			}
			c.Flags = append(c.Flags, flagSpec{n, k, d})
		}
	}
	if r.Chance(1, 3) {
		c.Input = []string{"a line\n", "no newline", "1\n2\n3\n"}[r.N(3)]
	}
	for k := r.N(6); k > 0; k-- {
		name, kind := "", "string"
		switch {
		case len(c.Flags) > 0 && r.Chance(2, 3):
			f := c.Flags[r.N(len(c.Flags))]
			name, kind = f.Name, f.Kind
		case r.Chance(1, 3):
			name = pickName(r)
		case r.Chance(1, 4):
			name = []string{"h", "help", "-h"}[r.N(3)]
		case r.Chance(1, 6):
			c.Argv = append(c.Argv, "--")
			continue
		case r.Chance(1, 4) && len(raws) > 0:
			c.Argv = append(c.Argv, raws[r.N(len(raws))]+[]string{"", "", "=1", "x"}[r.N(4)])
			continue
		default:
			c.Argv = append(c.Argv, []string{"positional", "", "-", "a=b", "0"}[r.N(5)])
			continue
		}
		dash := "-"
		if r.Chance(1, 2) {
			dash = "--"
		}
		switch r.N(3) {
		case 0:
			c.Argv = append(c.Argv, dash+name)
		case 1:
			c.Argv = append(c.Argv, dash+name+"="+value(r, kind))
		case 2:
			c.Argv = append(c.Argv, dash+name, value(r, kind))
		}
	}
	if r.Chance(1, 3) {
		c.Env = append(c.Env, "GODEBUG="+godebugs[r.N(len(godebugs))])
	}
	circumstances(r, c)
	for k := r.N(3); k > 0 && len(envs) > 0; k-- {
		c.Env = append(c.Env, envs[r.N(len(envs))]+"="+[]string{"1", "", "true", "/x"}[r.N(4)])
	}
	return c
}

// progs are names a program is run by.
var progs = []string{"program", "./program", "/tmp/x.test", "asm", "gen", "gentables", "bench", "go", "-", "", "streamvbyte", "main.exe", "a b"}

func circumstances(r *pbt.Rand, c *hostCase) {
	if r.Chance(1, 3) {
		c.Name = progs[r.N(len(progs))]
		if r.Chance(1, 3) && len(raws) > 0 {
			c.Name = "/usr/bin/" + raws[r.N(len(raws))]
		}
	}
	if r.Chance(1, 4) {
		c.End = ends[r.N(len(ends))]
	}
	if r.Chance(1, 3) {
		c.Term = 7
		if r.Bool() {
			c.Term = 1 + r.N(7)
		}
	}
	if r.Chance(1, 4) {
		for k := 1 + r.N(3); k > 0; k-- {
			f := []string{"README.md", "go.mod", ".streamvbyte", "streamvbyte.conf", "config.json", "debug", "VERSION", ".env"}[r.N(8)]
			if r.Chance(1, 3) && len(raws) > 0 {
				f = raws[r.N(len(raws))]
			}
			if !slices.Contains(c.Files, f) && f != "." && f != ".." && !strings.Contains(f, "/") {
				c.Files = append(c.Files, f)
			}
		}
	}
}

func main() {
	load()
	random := func(r *pbt.Rand, i int) any {
		var fl []string
		for k := r.N(7); k > 0; k-- {
			fl = append(fl, pickName(r))
		}
		return mkWith(r, masks[r.N(len(masks))], fl)
	}
	// every name, defined by the program and not
	byName := func(r *pbt.Rand, i int) any {
		name, mask := names[i/2%len(names)], masks[i/2/len(names)]
		if i%2 == 0 {
			return mkWith(r, mask, []string{name})
		}
		c := mkWith(r, mask, nil)
		c.Argv = []string{"-" + name + []string{"", "=1", "=true"}[r.N(3)]}
		return c
	}
	// every string constant as an argument, and as an environment variable
	byRaw := func(r *pbt.Rand, i int) any {
		raw, mask := raws[i/4%len(raws)], masks[len(masks)-1-i/4/len(raws)]
		c := mkWith(r, mask, nil)
		switch i % 4 {
		case 0:
			c.Argv = []string{raw}
		case 1:
			c.Argv = []string{raw + "=1", "positional"}
		case 2:
			c.Argv = []string{"positional", raw, "1"}
		case 3:
			c.Argv = []string{"--" + strings.TrimLeft(raw, "-")}
			if len(strings.Trim(raw, "=-")) > 0 && !strings.HasPrefix(raw, "=") {
				c.Env = append(c.Env, strings.TrimRight(raw, "=")+"=1")
			}
		}
		return c
	}
	// every setting of the environment that hides extensions, every program
	bySetting := func(r *pbt.Rand, i int) any {
		c := mkWith(r, masks[i/len(godebugs)], nil)
		c.Env = []string{"GODEBUG=" + godebugs[i%len(godebugs)]}
		return c
	}
	perRaw := len(masks)
	if !pbt.Thorough() && perRaw > 3 {
		perRaw = 3
	}
	perName := len(masks)
	if !pbt.Thorough() && perName > 8 {
		perName = 8
	}
	pbt.Main(&pbt.Suite{
		Prop: "C18",
		Rule: "Every case is one host program (a subset of the library's packages imported, sometimes also called) with a generated set of flags, argument vector, error handling, environment, program name, files in its directory, pipes or a terminal as standard files, and a way to end (returning, a panic, a fault, a deadlock, a signal); it runs next to the same program without any import, and exit status, standard output (all flags with defaults and values, remaining arguments, os.Args) and standard error (usage text, errors, panics) must be the same, with no files left behind. Flag names come from the string constants of the sources and of the module's dependencies that define flags, from common names, and at random. Non-trivial: the program defines a flag or gets an argument; distinct by hash of the whole case.",
		Sections: []pbt.Section{
			{Name: "names", N: perName * len(names) * 2, Make: byName},
			{Name: "constants", N: perRaw * len(raws) * 4, Make: byRaw},
			{Name: "extensions-hidden", N: len(masks) * len(godebugs), Make: bySetting},
			{Name: "circumstances", N: len(masks) * pbt.Scale(40, 200), Make: func(r *pbt.Rand, i int) any {
				c := mkWith(r, masks[i%len(masks)], nil)
				switch k := i / len(masks); {
				case k < 7:
					c.Term = k + 1
				case k < 7+len(progs):
					c.Name = progs[k-7]
				case k < 7+len(progs)+len(ends):
					c.Argv, c.End = nil, ends[k-7-len(progs)]
				}
				return c
			}},
			{Name: "random", N: pbt.Scale(4000, 80000), Make: random},
		},
		New:   func() any { return &hostCase{} },
		Check: check,
		Hash: func(x any) uint64 {
			b, _ := json.Marshal(x)
			h := pbt.NewHash()
			for _, v := range b {
				h = h.U64(uint64(v))
			}
			return uint64(h)
		},
		Nontrivial: func(x any) bool { c := x.(*hostCase); return len(c.Flags)+len(c.Argv) > 0 },
		Labels: func(x any) []string {
			c := x.(*hostCase)
			l := []string{fmt.Sprintf("%d packages imported", len(c.Imports))}
			if c.Use {
				l = append(l, "calls the library")
			}
			if c.Term != 0 {
				l = append(l, "on a terminal")
			}
			if c.End != "" {
				l = append(l, "ends by panic, signal or exit")
			}
			return l
		},
		Shrink: func(x any, try func(any) bool) {
			c := x.(*hostCase)
			with := func(f func(d *hostCase)) bool { d := *c; f(&d); return try(&d) }
			for i := range c.Flags {
				if with(func(d *hostCase) { d.Flags = append(append([]flagSpec{}, c.Flags[:i]...), c.Flags[i+1:]...) }) {
					return
				}
			}
			for i := range c.Argv {
				if with(func(d *hostCase) { d.Argv = append(append([]string{}, c.Argv[:i]...), c.Argv[i+1:]...) }) {
					return
				}
			}
			for i := range c.Env {
				if with(func(d *hostCase) { d.Env = append(append([]string{}, c.Env[:i]...), c.Env[i+1:]...) }) {
					return
				}
			}
			if c.End != "" && with(func(d *hostCase) { d.End = "" }) || c.Term != 0 && with(func(d *hostCase) { d.Term = 0 }) || c.Name != "" && with(func(d *hostCase) { d.Name = "" }) || len(c.Files) > 0 && with(func(d *hostCase) { d.Files = c.Files[1:] }) {
				return
			}
			if c.Use && with(func(d *hostCase) { d.Use = false }) {
				return
			}
			for _, m := range masks { // fewer packages
				if m < c.Subset && m&c.Subset == m {
					if with(func(d *hostCase) {
						d.Subset, d.Imports = m, nil
						for k, p := range packages {
							if m>>uint(k)&1 == 1 {
								d.Imports = append(d.Imports, p)
							}
						}
					}) {
						return
					}
				}
			}
		},
	})
}

// Command scripts decides C22: the repository's maintenance scripts, run in
// scratch git repositories, say and do what their effects there show.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"verif/harness/pbt"
)

// op is one change to the working tree or to the index.
type op struct {
	Do   string `json:"do"` // write, append, space (at the end of the first line), delete, exec, stage, commit
	File string `json:"file,omitempty"`
	Text string `json:"text,omitempty"`
}

type scriptCase struct {
	Kind   string   `json:"kind"` // check: tools/generate_and_check.sh, update: tools/update_bench.sh
	Real   bool     `json:"real_generators"`
	Before []op     `json:"before,omitempty"`    // the state of the working tree
	Gen    []op     `json:"generates,omitempty"` // what generation does to it
	Fails  bool     `json:"generation_fails,omitempty"`
	Readme string   `json:"readme,omitempty"`
	Log    []string `json:"log,omitempty"`    // what go test prints
	Stderr []string `json:"stderr,omitempty"` // and says besides
}

var (
	repo = os.Getenv("PBT_REPO")
	tool = os.Getenv("PBT_TOOL")
)

func broken(v ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"scripts:"}, v...)...)
	os.Exit(3)
}

func must(err error) {
	if err != nil {
		broken(err)
	}
}

// apply changes files under dir; stage and commit are left to the caller.
func apply(dir string, o op) error {
	f := filepath.Join(dir, o.File)
	switch o.Do {
	case "write":
		must(os.MkdirAll(filepath.Dir(f), 0o755))
		return os.WriteFile(f, []byte(o.Text), 0o644)
	case "append":
		h, err := os.OpenFile(f, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0o644)
		if err != nil {
			return err
		}
		defer h.Close()
		_, err = h.WriteString(o.Text)
		return err
	case "space":
		b, err := os.ReadFile(f)
		if err != nil {
			return nil
		}
		return os.WriteFile(f, []byte(strings.Replace(string(b), "\n", o.Text+"\n", 1)), 0o644)
	case "delete":
		if err := os.Remove(f); err != nil && !errors.Is(err, fs.ErrNotExist) {
			return err
		}
	case "exec":
		if _, err := os.Stat(f); err == nil {
			return os.Chmod(f, 0o755)
		}
	}
	return nil
}

// tree is a scratch repository.
type tree struct {
	base, dir, bin, tmp, home string
}

const stub = `#!/bin/sh
# Stands in for go: generation and benchmarks are what the case says.
case "$1" in
generate) [ -n "$STUB_REAL" ] || exec "$STUB_SELF" apply "$STUB_OPS" ;;
test)
	for a; do printf '%s\n' "$a"; done > "$STUB_ARGS"
	cat "$STUB_ERR" >&2
	exec cat "$STUB_LOG" ;;
run)
	if [ -z "$STUB_REAL" ]; then
		shift
		while [ $# -gt 0 ] && [ "${1#-}" != "$1" ]; do shift; done
		while [ $# -gt 0 ] && [ "${1%.go}" != "$1" ]; do shift; last=1; done
		[ -n "$last" ] || shift
		exec "$STUB_TOOL" "$@"
	fi ;;
esac
PATH=$STUB_PATH exec go "$@"
`

func (t *tree) git(args ...string) string {
	cmd := exec.Command("git", args...)
	cmd.Dir, cmd.Env = t.dir, t.env()
	out, err := cmd.Output()
	if err != nil {
		broken("git", args, err, string(out))
	}
	return string(out)
}

func (t *tree) env(more ...string) []string {
	return append(append(os.Environ(), "GIT_CONFIG_GLOBAL=/dev/null", "GIT_CONFIG_NOSYSTEM=1", "GIT_AUTHOR_NAME=a", "GIT_AUTHOR_EMAIL=a@b", "GIT_COMMITTER_NAME=a", "GIT_COMMITTER_EMAIL=a@b"), more...)
}

func newTree() *tree {
	base, err := os.MkdirTemp("", "scripts")
	must(err)
	t := &tree{base: base, dir: base + "/repo", bin: base + "/bin", tmp: base + "/tmp"}
	for _, d := range []string{t.bin, t.tmp, base + "/twin"} {
		must(os.Mkdir(d, 0o755))
	}
	must(os.WriteFile(t.bin+"/go", []byte(stub), 0o755))
	must(filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if d.IsDir() {
			if d.Name() == ".git" {
				return fs.SkipDir
			}
			return os.MkdirAll(filepath.Join(t.dir, rel), 0o755)
		}
		if !d.Type().IsRegular() {
			return nil
		}
		info, err := d.Info()
		if err != nil || info.Size() > 1<<22 {
			return err
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(t.dir, rel), b, info.Mode().Perm()|0o600)
	}))
	t.git("init", "-q")
	t.git("add", "-A")
	t.git("commit", "-qm", "start")
	t.git("tag", "start")
	return t
}

// files is what the working tree holds, without what git ignores.
func (t *tree) files() map[string]string {
	m := map[string]string{}
	for _, f := range strings.Split(t.git("ls-files", "-z", "-co", "--exclude-standard"), "\x00") {
		b, err := os.ReadFile(filepath.Join(t.dir, f))
		if f == "" || err != nil {
			continue
		}
		i, err := os.Stat(filepath.Join(t.dir, f))
		must(err)
		m[f] = map[bool]string{true: "x", false: "-"}[i.Mode()&0o100 != 0] + string(b)
	}
	return m
}

func differences(a, b map[string]string) (l []string) {
	for f := range a {
		if x, ok := b[f]; !ok {
			l = append(l, f+" is gone")
		} else if x != a[f] {
			l = append(l, f+" is different")
		}
	}
	for f := range b {
		if _, ok := a[f]; !ok {
			l = append(l, f+" is new")
		}
	}
	sort.Strings(l)
	return l
}

func model(m map[string]string, ops []op) map[string]string {
	n := map[string]string{}
	for f, x := range m {
		n[f] = x
	}
	for _, o := range ops {
		if strings.HasSuffix(o.File, ".out") { // git ignores it
			continue
		}
		old, ok := n[o.File]
		switch o.Do {
		case "write":
			if !ok {
				old = "-"
			}
			n[o.File] = old[:1] + o.Text
		case "append":
			if !ok {
				old = "-"
			}
			n[o.File] = old + o.Text
		case "space":
			if ok {
				n[o.File] = strings.Replace(old, "\n", o.Text+"\n", 1)
			}
		case "delete":
			delete(n, o.File)
		case "exec":
			if ok {
				n[o.File] = "x" + old[1:]
			}
		}
	}
	return n
}

func check(w *pbt.Worker, x any) error {
	c := x.(*scriptCase)
	t, _ := w.Scratch["tree"].(*tree)
	if t == nil {
		t = newTree()
		w.Scratch["tree"] = t
	}
	t.git("reset", "-q", "--hard", "start")
	t.git("clean", "-qfdx")
	w.Progress()
	if c.Kind == "update" {
		return t.update(w, c)
	}
	return t.check(w, c)
}

func (t *tree) run(script string, more ...string) (string, error) {
	self, err := os.Executable()
	must(err)
	cmd := exec.Command("bash", "./tools/"+script)
	cmd.Dir = t.dir
	cmd.Env = t.env(append(more, "PATH="+t.bin+":"+os.Getenv("PATH"), "STUB_PATH="+os.Getenv("PATH"), "STUB_SELF="+self, "STUB_TOOL="+tool, "TMPDIR="+t.tmp, "SBYTE_HOME="+t.dir)...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err = cmd.Run()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		broken("cannot run", script, err)
	}
	return out.String(), err
}

func last(s string) string {
	if len(s) > 600 {
		s = s[len(s)-600:]
	}
	return s
}

func (t *tree) check(w *pbt.Worker, c *scriptCase) error {
	for _, o := range c.Before {
		switch o.Do {
		case "stage":
			t.git("add", "-A")
		case "commit":
			t.git("add", "-A")
			t.git("commit", "-qm", "more", "--allow-empty")
		default:
			must(apply(t.dir, o))
		}
	}
	// What git does not track, it cannot compare; such files are not
	// generated in these cases.
	untracked := map[string]bool{}
	for _, f := range strings.Split(t.git("ls-files", "-z", "-o", "--exclude-standard"), "\x00") {
		untracked[f] = true
	}
	var gen []op
	for _, o := range c.Gen {
		if !untracked[o.File] {
			gen = append(gen, o)
		}
	}
	j, err := json.Marshal(map[string]any{"ops": gen, "fails": c.Fails})
	must(err)
	must(os.WriteFile(t.base+"/ops.json", j, 0o644))
	before, index := t.files(), t.git("ls-files", "-s")
	w.Calls++
	more := []string{"STUB_OPS=" + t.base + "/ops.json"}
	if c.Real {
		more = append(more, "STUB_REAL=1")
	}
	out, err := t.run("generate_and_check.sh", more...)
	after := t.files()
	if !c.Real {
		if d := differences(model(before, gen), after); d != nil {
			return fmt.Errorf("generate_and_check.sh: besides what generation did, %s", strings.Join(d, ", "))
		}
	}
	if t.git("ls-files", "-s") != index {
		return fmt.Errorf("generate_and_check.sh changed the index")
	}
	d := differences(before, after)
	switch {
	case c.Fails && err == nil:
		return fmt.Errorf("generation failed, but generate_and_check.sh succeeded: %s", last(out))
	case c.Fails:
	case d != nil && err == nil:
		return fmt.Errorf("generation changed files (%s), but generate_and_check.sh succeeded", strings.Join(d, ", "))
	case d == nil && err != nil:
		return fmt.Errorf("generation changed nothing, but generate_and_check.sh failed: %v: %s", err, last(out))
	}
	if es, _ := os.ReadDir(t.tmp); len(es) != 0 && err == nil {
		return fmt.Errorf("generate_and_check.sh left temporary files behind: %v", es)
	}
	return nil
}

func (t *tree) update(w *pbt.Worker, c *scriptCase) error {
	must(os.WriteFile(t.dir+"/README.md", []byte(c.Readme), 0o644))
	log := strings.Join(c.Log, "\n") + "\n"
	for f, s := range map[string]string{"log": log, "err": strings.Join(c.Stderr, "\n") + "\n", "args": "", "twin/README.md": c.Readme} {
		must(os.WriteFile(t.base+"/"+f, []byte(s), 0o644))
	}
	// What the tool makes of the same log.
	cmd := exec.Command(tool, "-w")
	cmd.Dir, cmd.Env, cmd.Stdin = t.base+"/twin", []string{"SBYTE_HOME=" + t.base + "/twin"}, strings.NewReader(log)
	toolErr := cmd.Run()
	want, err := os.ReadFile(t.base + "/twin/README.md")
	must(err)
	must(os.RemoveAll(t.tmp))
	must(os.Mkdir(t.tmp, 0o755))

	before := t.files()
	w.Calls++
	more := []string{"STUB_LOG=" + t.base + "/log", "STUB_ERR=" + t.base + "/err", "STUB_ARGS=" + t.base + "/args"}
	if c.Real {
		more = append(more, "STUB_REAL=1")
	}
	out, err := t.run("update_bench.sh", more...)
	after := t.files()
	delete(before, "README.md")
	got, ok := after["README.md"]
	delete(after, "README.md")
	if d := differences(before, after); d != nil {
		return fmt.Errorf("update_bench.sh changed other files: %s", strings.Join(d, ", "))
	}
	if toolErr != nil {
		if err == nil {
			return fmt.Errorf("the README cannot be updated, but update_bench.sh succeeded")
		}
		if !ok || got[1:] != c.Readme {
			return fmt.Errorf("the README cannot be updated, and update_bench.sh changed it")
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("update_bench.sh failed: %v: %s", err, last(out))
	}
	if !ok || got[1:] != string(want) {
		return fmt.Errorf("update_bench.sh: the README is not what the tool makes of the output of go test:\n%s\nwant\n%s", last(got), last(string(want)))
	}
	if es, _ := os.ReadDir(t.tmp); len(es) != 0 {
		return fmt.Errorf("update_bench.sh left temporary files behind: %v", es)
	}
	// Every benchmark is asked for.
	b, err := os.ReadFile(t.base + "/args")
	must(err)
	args, bench := strings.Split(strings.TrimSpace(string(b)), "\n"), ""
	for i, a := range args {
		a = strings.TrimPrefix(strings.TrimPrefix(a, "-"), "-")
		a = strings.TrimPrefix(a, "test.")
		if v, ok := strings.CutPrefix(a, "bench="); ok {
			bench = v
		} else if a == "bench" && i+1 < len(args) {
			bench = args[i+1]
		}
	}
	re, err := regexp.Compile(bench)
	if bench == "" || err != nil {
		return fmt.Errorf("update_bench.sh runs no benchmarks: go %v", args)
	}
	for _, n := range names() {
		if !re.MatchString(n) {
			return fmt.Errorf("update_bench.sh leaves out %s: go %v", n, args)
		}
	}
	return nil
}

var benchNames []string

// names lists the benchmarks of the repository.
func names() []string { return benchNames }

func findNames() {
	re := regexp.MustCompile(`(?m)^func (Benchmark\w+)\(`)
	must(filepath.WalkDir(repo+"/pkg", func(p string, d fs.DirEntry, err error) error {
		if err == nil && strings.HasSuffix(p, "_test.go") {
			b, err := os.ReadFile(p)
			for _, m := range re.FindAllStringSubmatch(string(b), -1) {
				benchNames = append(benchNames, m[1])
			}
			return err
		}
		return err
	}))
}

// ---- generation ------------------------------------------------------------

var generated = []string{"pkg/shared/tables.go", "pkg/encode/encode_amd64.s", "pkg/decode/decode_amd64.s"}
var others = []string{"README.md", "Makefile.local", "pkg/notes.txt", "pkg/shared/gen.go", "pkg/util/rand.go", "LICENSE", "a b.txt", "ünï.txt", "x.out"}

func file(r *pbt.Rand) string {
	if r.Chance(1, 2) {
		return generated[r.N(len(generated))]
	}
	return others[r.N(len(others))]
}

func change(r *pbt.Rand, f string) op {
	switch r.N(9) {
	case 8:
		return op{Do: "space", File: f, Text: []string{" ", "\t", "\r"}[r.N(3)]}
	case 0:
		return op{Do: "delete", File: f}
	case 1:
		return op{Do: "exec", File: f}
	case 2, 3, 4:
		return op{Do: "write", File: f, Text: []string{"", "a\n", "b\n", "a", "\x00\x01", "\x00\x02", "a\r\n", "a \n", "\ta\n", "A\n"}[r.N(10)]}
	}
	return op{Do: "append", File: f, Text: []string{"// more\n", "// less\n", " ", "\n", "\x00"}[r.N(5)]}
}

func mkCheck(r *pbt.Rand, i int) any {
	c := &scriptCase{Kind: "check"}
	if !r.Chance(1, 4) {
		for k := r.N(5); k >= 0; k-- {
			c.Before = append(c.Before, change(r, file(r)))
			if r.Chance(1, 4) {
				c.Before = append(c.Before, op{Do: []string{"stage", "commit"}[r.N(2)]})
			}
		}
	}
	switch r.N(6) {
	case 0: // nothing
	case 1: // the same again
		for _, o := range c.Before {
			if o.Do == "write" || o.Do == "exec" || o.Do == "delete" {
				c.Gen = append(c.Gen, o)
			}
		}
	case 2: // one of those files once more
		for _, o := range c.Before {
			if o.Do == "space" || o.File != "" && r.Chance(1, 4) {
				c.Gen = append(c.Gen, o)
			} else if o.File != "" && r.Chance(1, 2) {
				c.Gen = append(c.Gen, change(r, o.File))
			}
		}
	case 3: // one thing
		c.Gen = append(c.Gen, change(r, file(r)))
	default:
		for k := r.N(4); k >= 0; k-- {
			c.Gen = append(c.Gen, change(r, file(r)))
		}
	}
	c.Fails = r.Chance(1, 10)
	return c
}

func mkReal(r *pbt.Rand, i int) any {
	c := &scriptCase{Kind: "check", Real: true}
	f := generated[(i/2)%len(generated)]
	if i%2 == 0 {
		c.Before = append(c.Before, op{Do: "append", File: f, Text: "// by hand\n"})
		if r.Chance(1, 3) {
			c.Before = append(c.Before, op{Do: "delete", File: generated[0]})
		}
	} else {
		for k := r.N(3); k >= 0; k-- {
			c.Before = append(c.Before, op{Do: "append", File: []string{"README.md", "pkg/notes.txt", "LICENSE"}[r.N(3)], Text: "more\n"})
		}
	}
	switch r.N(3) {
	case 0:
		c.Before = append(c.Before, op{Do: "stage"})
	case 1:
		c.Before = append(c.Before, op{Do: "commit"})
	}
	if r.Chance(1, 6) {
		c.Before = append(c.Before, op{Do: "append", File: "pkg/shared/main/gentables.go", Text: "\nfunc {\n"})
		c.Fails = true
	}
	return c
}

func mkUpdate(r *pbt.Rand, i int) any {
	c := &scriptCase{Kind: "update"}
	prose := func() string {
		s := ""
		for k := r.N(4); k > 0; k-- {
			s += []string{"# Title\n", "\n", "text\n", "```text\nother\n```\n", "$HOME `id` \\ *\n", "-n\n", "-e\n"}[r.N(7)]
		}
		return s
	}
	c.Readme = prose()
	if !r.Chance(1, 8) {
		c.Readme += "## Benchmarks\n\n```text\nold\n```\n" + prose()
	}
	for k := r.N(30) + 1; k > 0; k-- {
		c.Log = append(c.Log, []string{"goos: linux", "goarch: amd64", "pkg: example.com/x", "cpu: Some CPU @ 3.20GHz", "BenchmarkX-8   \t  100\t   12.5 ns/op", "BenchmarkX/$HOME-8 1", "BenchmarkY/`id`-8 2",
			"BenchmarkZ/*-8   3   \\n", "PASS", "ok  \tx\t1.2s", "", "-n", "?   \ty\t[no test files]", "BenchmarkW-8    4     5   %d"}[r.N(14)])
	}
	if r.Chance(1, 6) {
		for k := r.N(1 << uint(r.N(14))); k > 0; k-- {
			c.Log = append(c.Log, fmt.Sprintf("BenchmarkMany/%d-8 1 2 ns/op", k))
		}
	}
	if r.Chance(1, 2) {
		c.Stderr = []string{"go: downloading example.com/x v1.0.0", "BenchmarkNotOutput-8 1 1 ns/op", "cpu: not output"}
	}
	return c
}

func mkUpdateReal(r *pbt.Rand, i int) any {
	c := mkUpdate(r, i).(*scriptCase)
	c.Real = true
	return c
}

func main() {
	if len(os.Args) == 3 && os.Args[1] == "apply" {
		var x struct {
			Ops   []op `json:"ops"`
			Fails bool `json:"fails"`
		}
		b, err := os.ReadFile(os.Args[2])
		must(err)
		must(json.Unmarshal(b, &x))
		for _, o := range x.Ops {
			must(apply(".", o))
		}
		if x.Fails {
			os.Exit(1)
		}
		return
	}
	if repo != "" {
		findNames()
	}
	pbt.Main(&pbt.Suite{
		Prop: "C22",
		Rule: "Every case runs one of the repository's scripts in a scratch git repository that holds a copy of the working tree. For the generation check, a case is a state of the tree (files changed, made executable, deleted, added; unstaged, staged, committed) and what generation does to it, through a stand-in for go generate; in the \"real\" section the real generators run. The oracle compares all files before and after with the exit status. For the benchmark update, a case is a README and what go test prints, through a stand-in; the oracle is the README tool run on the same output. Non-trivial: a check with a changed tree or a generation that does something, or an update with a block and a benchmark line; distinct by hash of the case.",
		Sections: []pbt.Section{{Name: "generation check", N: pbt.Scale(700, 20000), Make: mkCheck}, {Name: "real generation", N: pbt.Scale(8, 60), Make: mkReal},
			{Name: "benchmark update", N: pbt.Scale(400, 10000), Make: mkUpdate}, {Name: "real update", N: pbt.Scale(8, 60), Make: mkUpdateReal}},
		New:   func() any { return &scriptCase{} },
		Check: check,
		Hash: func(x any) uint64 {
			b, _ := json.Marshal(x)
			h := pbt.NewHash()
			for _, c := range b {
				h = h.U64(uint64(c))
			}
			return uint64(h)
		},
		Nontrivial: func(x any) bool {
			c := x.(*scriptCase)
			if c.Kind == "update" {
				return strings.Contains(c.Readme, "## Benchmarks") && strings.Contains(strings.Join(c.Log, "\n"), "Benchmark")
			}
			return len(c.Before)+len(c.Gen) > 0
		},
		Labels: func(x any) []string {
			c := x.(*scriptCase)
			l := []string{c.Kind}
			if c.Real {
				l = append(l, c.Kind+", real")
			}
			if c.Fails {
				l = append(l, "generation fails")
			}
			for _, o := range c.Before {
				if o.Do == "stage" || o.Do == "commit" {
					l = append(l, map[string]string{"stage": "staged", "commit": "committed"}[o.Do]+" changes")
					break
				}
			}
			return l
		},
		Shrink: func(x any, try func(any) bool) {
			c := x.(*scriptCase)
			with := func(f func(d *scriptCase)) bool {
				d := *c
				f(&d)
				return try(&d)
			}
			cut := func(l []op, set func(d *scriptCase, l []op)) bool {
				for i := range l {
					if with(func(d *scriptCase) { set(d, append(append([]op{}, l[:i]...), l[i+1:]...)) }) {
						return true
					}
				}
				return false
			}
			if c.Stderr != nil && with(func(d *scriptCase) { d.Stderr = nil }) || cut(c.Before, func(d *scriptCase, l []op) { d.Before = l }) || cut(c.Gen, func(d *scriptCase, l []op) { d.Gen = l }) {
				return
			}
			for k := (len(c.Log) + 1) / 2; k > 0; k /= 2 {
				for i := 0; i+k <= len(c.Log); i += k {
					if with(func(d *scriptCase) { d.Log = append(append([]string{}, c.Log[:i]...), c.Log[i+k:]...) }) {
						return
					}
				}
			}
		},
	})
}

// Command readme decides C17: the built README tool (PBT_TOOL) is run on
// generated READMEs and benchmark logs, in scratch directories.
package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"verif/harness/pbt"
)

// Text is a byte string, readable in case files when it is valid UTF-8.
type Text string

func (t Text) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(t)) {
		return json.Marshal(string(t))
	}
	return json.Marshal(map[string]string{"hex": hex.EncodeToString([]byte(t))})
}

func (t *Text) UnmarshalJSON(b []byte) error {
	var s string
	if json.Unmarshal(b, &s) == nil {
		*t = Text(s)
		return nil
	}
	var m map[string]string
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	raw, err := hex.DecodeString(m["hex"])
	*t = Text(raw)
	return err
}

const (
	heading = "## Benchmarks\n\n```text\n"
	fence   = "```\n"
)

// line is one line of the benchmark log.
type line struct {
	Text Text `json:"text"`
	Keep bool `json:"keep"` // an environment or benchmark line
}

type readmeCase struct {
	Kind   int    `json:"kind"` // 0 one block, 1 no block at all, 2 block never closed, 3 no README
	Prefix Text   `json:"prefix"`
	Block  Text   `json:"block"`
	Suffix Text   `json:"suffix"`
	Log    []line `json:"log"`
	NoEOL  bool   `json:"log_without_final_newline"`
	Print  bool   `json:"without_-w"`
	Input  int    `json:"input"`           // 0 a pipe, 1 a file, 2 a pipe that is slow, 3 something that cannot be read
	Full   bool   `json:"full,omitempty"`  // standard output takes nothing
	Short  int    `json:"short,omitempty"` // the README can be written up to a number of bytes only: 1 none, 2 some
	Home   int    `json:"home"`            // SBYTE_HOME: 0 absolute, 1 with a slash at the end, 2 not set, the directory is current, 3 relative
}

func (c *readmeCase) readme() string {
	switch c.Kind {
	case 1:
		return string(c.Prefix + c.Suffix)
	case 2:
		return string(c.Prefix) + heading + string(c.Block)
	}
	return string(c.Prefix) + heading + string(c.Block) + fence + string(c.Suffix)
}

// wellFormed keeps shrinking (and generation) inside the intended shape: the
// first heading is the block's, and nothing in the block looks like a fence.
func (c *readmeCase) wellFormed() bool {
	if p := string(c.Prefix); p != "" && !strings.HasSuffix(p, "\n") {
		return false
	}
	if b := string(c.Block); strings.Contains(b, "```") || b != "" && !strings.HasSuffix(b, "\n") {
		return false
	}
	i := strings.Index(c.readme(), heading)
	if c.Kind == 1 {
		return i < 0
	}
	return i == len(c.Prefix)
}

func (c *readmeCase) log() string {
	var b strings.Builder
	for i, l := range c.Log {
		b.WriteString(string(l.Text))
		if i < len(c.Log)-1 || !c.NoEOL {
			b.WriteByte('\n')
		}
	}
	return b.String()
}

var tool = os.Getenv("PBT_TOOL")

// literals are the strings in the tool's sources.
var literals = func() (l []string) {
	json.Unmarshal([]byte(os.Getenv("PBT_STRINGS")), &l)
	return
}()

// literal draws one of them on one line.
func literal(r *pbt.Rand) string {
	if len(literals) == 0 {
		return "--"
	}
	l := strings.Split(literals[r.N(len(literals))], "\n")
	return l[r.N(len(l))]
}

// tooLong says that the log has a line the tool may refuse as a whole.
func (c *readmeCase) tooLong() bool {
	for _, l := range c.Log {
		if len(l.Text) >= 1<<16-2 {
			return true
		}
	}
	return false
}

// pieces gives a few bytes at a time.
type inPieces struct {
	s string
	n int
}

func (p *inPieces) Read(b []byte) (int, error) {
	if p.s == "" {
		return 0, io.EOF
	}
	p.n = (p.n*5 + 3) % 4001
	n := copy(b, p.s[:min(len(p.s), p.n+1)])
	p.s = p.s[n:]
	return n, nil
}

func (c *readmeCase) runTool(dir, log string, limit int, args ...string) (string, string, error) {
	cmd := exec.Command(tool, args...)
	if limit >= 0 {
		cmd = exec.Command("/bin/sh", append([]string{"-c", fmt.Sprintf(`ulimit -f %d && exec "$@"`, limit), "sh", tool}, args...)...)
	}
	cmd.Dir = dir
	home := dir
	switch c.Home {
	case 1:
		home += "/"
	case 2:
		home = ""
	case 3:
		home = filepath.Base(dir)
		cmd.Dir = filepath.Dir(dir)
	}
	cmd.Env = []string{"PATH=/nonexistent", "HOME=" + dir}
	if home != "" {
		cmd.Env = append(cmd.Env, "SBYTE_HOME="+home)
	}
	switch c.Input {
	case 0:
		cmd.Stdin = strings.NewReader(log)
	case 1:
		f, err := os.CreateTemp("", "log")
		if err == nil {
			os.Remove(f.Name())
			defer f.Close()
			_, err = f.WriteString(log)
			f.Seek(0, io.SeekStart)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		cmd.Stdin = f
	case 2:
		cmd.Stdin = &inPieces{log, len(log) % 4001}
	case 3:
		f, err := os.Open(dir)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		defer f.Close()
		cmd.Stdin = f
	}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if c.Full && len(args) == 0 {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		defer f.Close()
		cmd.Stdout = f
	}
	err := cmd.Run()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		fmt.Fprintln(os.Stderr, "readme: cannot run the tool:", err)
		os.Exit(3)
	}
	return out.String(), errb.String(), err
}

// blockError compares the new file with what the property allows.
func (c *readmeCase) blockError(got string) error {
	head, tail := string(c.Prefix)+heading, fence+string(c.Suffix)
	if !strings.HasPrefix(got, head) {
		return fmt.Errorf("text before the block changed: %s", where(got, head))
	}
	if !strings.HasSuffix(got, tail) || len(got) < len(head)+len(tail) {
		return fmt.Errorf("text after the block changed: %d bytes, ending in %q, want the ending %q", len(got), last(got, 60), last(tail, 60))
	}
	block := got[len(head) : len(got)-len(tail)]
	if block != "" && !strings.HasSuffix(block, "\n") {
		return fmt.Errorf("the closing fence is not on a line of its own: block ends in %q", last(block, 40))
	}
	var have []string // the lines apart from layout
	for _, l := range strings.Split(block, "\n") {
		if l != "" && strings.Trim(l, "-") != "" {
			have = append(have, l)
		}
	}
	k := 0
	for _, l := range c.Log {
		if !l.Keep {
			continue
		}
		if k >= len(have) {
			return fmt.Errorf("line %q is missing from the block", cut(string(l.Text)))
		}
		if h := have[k]; h != string(l.Text) && "Benchmark"+h != string(l.Text) {
			return fmt.Errorf("line %d of the block is %q, want %q", k, cut(h), cut(string(l.Text)))
		}
		k++
	}
	if k < len(have) {
		return fmt.Errorf("the block holds %q, which is not a line of the input", cut(have[k]))
	}
	return nil
}

func cut(s string) string {
	if len(s) > 100 {
		return s[:100] + "..."
	}
	return s
}
func last(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
func where(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("byte %d: %q, want %q", i, cut(got[i:]), cut(want[i:]))
}

func check(w *pbt.Worker, x any) error {
	c := x.(*readmeCase)
	dir, _ := w.Scratch["dir"].(string)
	if dir == "" {
		var err error
		if dir, err = os.MkdirTemp("", "readme"); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		w.Scratch["dir"] = dir
	}
	file := filepath.Join(dir, "README.md")
	before := c.readme()
	os.Remove(file)
	if c.Kind != 3 {
		if err := os.WriteFile(file, []byte(before), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	read := func() (string, error) {
		b, err := os.ReadFile(file)
		if err != nil {
			return "", fmt.Errorf("README is gone: %v", err)
		}
		es, _ := os.ReadDir(dir)
		if len(es) != 1 {
			return "", fmt.Errorf("the tool left other files next to the README: %v", es)
		}
		return string(b), nil
	}
	log := c.log()

	// Without -w the file stays and the new text goes to standard output.
	if c.Print {
		w.Calls++
		out, msg, err := c.runTool(dir, log, -1)
		if c.Full {
			if err == nil {
				return fmt.Errorf("nothing could be printed, but the tool succeeded")
			}
		} else if c.Kind != 0 || c.Input == 3 {
			if err == nil {
				return fmt.Errorf("no block in the file, or no input, but the tool succeeded (printing)")
			}
		} else if err != nil && c.tooLong() {
			// lines have their limits
		} else if err != nil {
			return fmt.Errorf("the tool failed (printing): %v: %s", err, cut(msg))
		} else if e := c.blockError(out); e != nil {
			return fmt.Errorf("printing: %w", e)
		}
		if c.Kind != 3 {
			if now, err := read(); err != nil {
				return err
			} else if now != before {
				return fmt.Errorf("the file changed without -w: %s", where(now, before))
			}
		}
	}

	if c.Short > 0 && c.Kind == 0 {
		// What cannot be written whole must not pass for written.
		limit := 0
		if c.Short == 2 {
			limit = (len(c.Prefix) + len(heading+fence) + len(c.Suffix) - 1) / 512 // blocks of sh
		}
		w.Calls++
		_, _, err := c.runTool(dir, log, limit, "-w")
		if err == nil {
			b, err := os.ReadFile(file)
			if err == nil {
				err = c.blockError(string(b))
			}
			if err != nil {
				return fmt.Errorf("the file could not be written whole, but the tool succeeded: %w", err)
			}
		}
		es, _ := os.ReadDir(dir)
		for _, e := range es { // what is left after this failure is not promised
			os.Remove(filepath.Join(dir, e.Name()))
		}
		if err := os.WriteFile(file, []byte(before), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}

	w.Calls++
	_, msg, err := c.runTool(dir, log, -1, "-w")
	if c.Kind == 3 {
		if err == nil {
			return fmt.Errorf("there is no README, but the tool succeeded")
		}
		return nil
	}
	now, e := read()
	if e != nil {
		return e
	}
	if c.Kind != 0 || c.Input == 3 || err != nil && c.tooLong() {
		if err == nil {
			return fmt.Errorf("no block in the file, or no input, but the tool succeeded")
		}
		if now != before {
			return fmt.Errorf("no block in the file, or no input, and the tool changed it: %s", where(now, before))
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("the tool failed: %v: %s", err, cut(msg))
	}
	if e := c.blockError(now); e != nil {
		return e
	}
	w.Calls++
	if _, msg, err := c.runTool(dir, log, -1, "-w"); err != nil {
		return fmt.Errorf("the tool failed the second time: %v: %s", err, cut(msg))
	}
	if then, e := read(); e != nil {
		return e
	} else if then != now {
		return fmt.Errorf("the same input again changed the file: %s", where(then, now))
	}
	return nil
}

// ---- generation ------------------------------------------------------------

var words = strings.Fields("the codec decodes integers bytes control SIMD fast Benchmark benchmarks Benchmarks goos: goarch: cpu: pkg: ns/op text `code` | -- --- # ## * 1. [link](http://x) <b> \\ % é 世 \t ~~~ $1 ${0} $$ $text %s %!d(MISSING) &amp; \\1 \\n {{.}} \ufeff")

func sentence(r *pbt.Rand) string {
	var b strings.Builder
	for k := r.N(9); k >= 0; k-- {
		b.WriteString(words[r.N(len(words))])
		b.WriteByte(" \t\r \v "[r.N(6)])
	}
	return b.String()
}

var pieces = []func(r *pbt.Rand) string{
	func(r *pbt.Rand) string { return sentence(r) + "\n" },
	func(r *pbt.Rand) string { return "\n" },
	func(r *pbt.Rand) string { return "## " + sentence(r) + "\n\n" },
	func(r *pbt.Rand) string { return "```\n" + sentence(r) + "\n```\n" },
	func(r *pbt.Rand) string { return "```text\n" + sentence(r) + "\n" + sentence(r) + "\n```\n" },
	func(r *pbt.Rand) string { return "```go\nfunc f() {}\n```\n\n" },
	func(r *pbt.Rand) string { return "```text\n```\n" },
	func(r *pbt.Rand) string { return "    ```\n" },
	func(r *pbt.Rand) string { return "## Benchmarks\n" },
	func(r *pbt.Rand) string { return "## Benchmarks\n\n" + sentence(r) + "\n\n```text\nold\n```\n" },
	func(r *pbt.Rand) string { return "## Benchmarks\n\n```\nplain\n```\n" },
	func(r *pbt.Rand) string { return "## Benchmarks\n```text\ntight\n```\n" },
	func(r *pbt.Rand) string { return "# Benchmarks\n\n```text\nother level\n```\n" },
	func(r *pbt.Rand) string { return "## benchmarks\n\n```text\nlower case\n```\n" },
	func(r *pbt.Rand) string { return "## Benchmarks\r\n\r\n```text\r\ncrlf\r\n```\r\n" },
	func(r *pbt.Rand) string { return "Inline ``` fence\n" },
	func(r *pbt.Rand) string { return "goos: linux\nBenchmarkX-8 \t 1\n" },
	func(r *pbt.Rand) string { return "\xff\xfe\x00\x80 binary\n" },
	func(r *pbt.Rand) string { return "--\n" },
	func(r *pbt.Rand) string { return literal(r) + "\n" },
	func(r *pbt.Rand) string { return literal(r) + sentence(r) + literal(r) + "\n" + literal(r) + "\n" },
}

func prose(r *pbt.Rand, n int, last bool) string {
	var b strings.Builder
	for ; n > 0; n-- {
		b.WriteString(pieces[r.N(len(pieces))](r))
	}
	if last && r.Chance(1, 4) { // no newline at the end of the file
		b.WriteString(sentence(r))
	}
	return b.String()
}

func benchLine(r *pbt.Rand) string {
	names := []string{"MemCopy8Uint32", "Get8uint32Fast", "Put8uint32DeltaScalar", "ReadAllFast/Count_1e6", "WriteAll/a=b,c", "Benchmark", "X", "goos", "_é", "Sub/goos:_linux", "cpu:", "Cost/$1", "Rate/${0}=$$", "Load/50%", "Path/\\1\\n", "T/{{.}}&"}
	s := "Benchmark" + names[r.N(len(names))]
	if r.Chance(1, 10) {
		s += strings.ReplaceAll(literal(r), "`", "")
	}
	if r.Chance(3, 4) {
		s += fmt.Sprintf("-%d", r.N(64)+1)
	}
	if r.Chance(9, 10) {
		s += fmt.Sprintf("    \t%d\t         %d.%03d ns/op\t%d.%02d MB/s", r.N(1<<30), r.N(1000), r.N(1000), r.N(20000), r.N(100))
	}
	if r.Chance(1, 6) {
		s += "\t       0 B/op\t       0 allocs/op"
	}
	if r.Chance(1, 400) {
		s += strings.Repeat("x", 30000+r.N(30000))
	}
	return s
}

func logLines(r *pbt.Rand, large bool) []line {
	var l []line
	add := func(keep bool, s string) { l = append(l, line{Text(s), keep}) }
	noise := func() {
		switch r.N(16) {
		case 14, 15:
			s := literal(r)
			if r.Bool() {
				s += benchLine(r)
			}
			for _, p := range []string{"goos", "goarch", "pkg", "cpu", "Benchmark"} {
				if strings.HasPrefix(s, p) {
					s = " " + s
				}
			}
			add(false, s)
		case 0:
			add(false, "PASS")
		case 1:
			add(false, fmt.Sprintf("ok  \tgithub.com/theMPatel/streamvbyte-simdgo/pkg/decode\t%d.%03ds", r.N(100), r.N(1000)))
		case 2:
			add(false, "")
		case 3:
			add(false, "?   \tgithub.com/theMPatel/streamvbyte-simdgo/tools\t[no test files]")
		case 4:
			add(false, "--- BENCH: BenchmarkX-8")
		case 5:
			add(false, "    decode_test.go:10: goos: linux")
		case 6:
			add(false, " BenchmarkIndented-8   100")
		case 7:
			add(false, "make: Entering directory '/x'")
		case 8:
			add(false, "go test -bench=. ./pkg/...")
		case 9:
			add(false, "\tcpu: tabbed")
		case 10:
			add(false, "benchmark lower case")
		case 11:
			add(false, "FAIL")
		case 12:
			add(false, "# pkg: comment "+strings.Repeat("y", r.N(3)*r.N(200)))
		case 13:
			add(false, "testing: warning: no tests to run")
		}
	}
	if r.Chance(1, 12) { // nothing to keep
		for k := r.N(5); k > 0; k-- {
			noise()
		}
		return l
	}
	many := r.Chance(1, 60)
	for pk := r.N(5); pk >= 0; pk-- {
		for r.Chance(1, 3) {
			noise()
		}
		if r.Chance(7, 8) {
			add(true, "goos: "+[]string{"linux", "darwin", "windows"}[r.N(3)])
		}
		if r.Chance(7, 8) {
			add(true, "goarch: "+[]string{"amd64", "arm64"}[r.N(2)])
		}
		if r.Chance(7, 8) {
			add(true, "pkg: github.com/theMPatel/streamvbyte-simdgo/pkg"+[]string{"", "/decode", "/stream/reader"}[r.N(3)])
		}
		if r.Chance(5, 6) {
			add(true, "cpu: "+[]string{"Intel(R) Core(TM) i7-8700B CPU @ 3.20GHz", "AMD EPYC", "x -- y", "$1 at 100% ${0}"}[r.N(4)])
		}
		k := r.N(12)
		if many {
			k += r.N(1500)
		}
		if large {
			k += r.N(1 << uint(r.N(15)))
		}
		for ; k > 0; k-- {
			if r.Chance(1, 6) {
				noise()
			} else {
				add(true, benchLine(r))
				for r.Chance(1, 12) { // the same once more
					l = append(l, l[len(l)-1])
				}
			}
		}
	}
	if r.Chance(1, 2) {
		noise()
	}
	return l
}

func mk(r *pbt.Rand, i int) any { return mkSize(r, false) }

func mkLarge(r *pbt.Rand, i int) any { return mkSize(r, true) }

func mkSize(r *pbt.Rand, large bool) any {
	for {
		c := &readmeCase{Log: logLines(r, large), NoEOL: r.Chance(1, 8), Print: r.Chance(1, 3), Input: r.N(3), Home: r.N(4)}
		c.Full = c.Print && r.Chance(1, 10)
		if r.Chance(1, 50) {
			c.Input = 3
		}
		if r.Chance(1, 12) {
			c.Short = 1 + r.N(2)
		}
		if r.Chance(1, 80) && len(c.Log) > 0 {
			l := &c.Log[r.N(len(c.Log))]
			l.Text += Text(strings.Repeat("long ", 12000+r.N(8000)))
		}
		switch r.N(12) {
		case 0:
			c.Kind = 1
		case 1:
			c.Kind = 2
		case 2:
			if r.Chance(1, 4) {
				c.Kind = 3
			}
		}
		size := func() int {
			if r.Chance(1, 150) {
				return 2000 + r.N(6000)
			}
			if large {
				return r.N(1 << uint(r.N(18)))
			}
			return r.N(9)
		}
		c.Prefix = Text(prose(r, size(), false))
		c.Suffix = Text(prose(r, size(), true))
		if r.Chance(1, 5) { // a second block later on
			c.Suffix += Text("\n" + heading + "second\n" + fence + prose(r, r.N(3), true))
		}
		var b strings.Builder
		k := r.N(8) * r.N(5)
		if large {
			k = r.N(1 << uint(r.N(17)))
		}
		for ; k > 0; k-- {
			switch r.N(4) {
			case 0:
				b.WriteString(benchLine(r) + "\n")
			case 1:
				b.WriteString("goos: old\n\n--\n")
			case 2:
				b.WriteString("old " + sentence(r) + "\n")
			case 3:
				b.WriteString("## Benchmarks\n`` \n")
			}
		}
		c.Block = Text(b.String())
		if c.Kind == 1 {
			c.Block = ""
		}
		if c.Kind == 2 {
			c.Suffix = ""
		}
		if c.wellFormed() {
			return c
		}
	}
}

func dropLines(t Text, try func(Text) bool) bool {
	ls := strings.SplitAfter(string(t), "\n")
	for k := len(ls); k >= 1; k /= 2 {
		for i := 0; i+k <= len(ls); i += k {
			c := strings.Join(ls[:i], "") + strings.Join(ls[i+k:], "")
			if c != string(t) && try(Text(c)) {
				return true
			}
		}
	}
	return false
}

func main() {
	pbt.Main(&pbt.Suite{
		Prop:     "C17",
		Rule:     "Every case is one generated README (prose, code blocks of all kinds and near-miss headings around one benchmark block; or no block, an unclosed block, no file) and one generated benchmark log (several packages, noise lines); the built tool is run on it in a scratch directory, printing, writing, and writing again with the same log. The oracle takes the README apart: what precedes and follows the block must be preserved byte for byte, and the block must hold the log's environment and benchmark lines in order, whatever the layout. Non-trivial: the block exists and has text on both sides, and the log keeps at least one line and drops at least one; distinct by hash of README and log.",
		Sections: []pbt.Section{{Name: "random", N: pbt.Scale(6000, 150000), Make: mk}, {Name: "large", N: pbt.Scale(160, 4000), Make: mkLarge}},
		New:      func() any { return &readmeCase{} },
		Check:    check,
		Hash: func(x any) uint64 {
			c := x.(*readmeCase)
			h := pbt.NewHash()
			for _, b := range []byte(c.readme() + "\x00" + c.log()) {
				h = h.U64(uint64(b))
			}
			return uint64(h)
		},
		Nontrivial: func(x any) bool {
			c := x.(*readmeCase)
			keep, drop := false, false
			for _, l := range c.Log {
				keep = keep || l.Keep
				drop = drop || !l.Keep
			}
			return c.Kind == 0 && c.Prefix != "" && c.Suffix != "" && keep && drop
		},
		Labels: func(x any) []string {
			c := x.(*readmeCase)
			l := []string{[]string{"one block", "no block", "unclosed block", "no README"}[c.Kind]}
			if strings.Contains(string(c.Prefix), fence) {
				l = append(l, "code block before")
			}
			if strings.Contains(string(c.Suffix), fence) {
				l = append(l, "code block after")
			}
			if len(c.Prefix)+len(c.Suffix) > 1<<16 {
				l = append(l, "more than 64 KB")
			}
			if len(c.Prefix)+len(c.Suffix)+len(c.Block) > 1<<20 {
				l = append(l, "more than 1 MB")
			}
			if c.Full {
				l = append(l, "nothing can be printed")
			}
			if c.Short > 0 && c.Kind == 0 {
				l = append(l, "the file cannot be written whole")
			}
			if c.Input == 3 {
				l = append(l, "input cannot be read")
			}
			if c.tooLong() {
				l = append(l, "a line of more than 64 KB")
			}
			if len(c.Log) > 2000 {
				l = append(l, "more than 2000 lines")
			}
			return l
		},
		Shrink: func(x any, try func(any) bool) {
			c := x.(*readmeCase)
			with := func(f func(d *readmeCase)) bool {
				d := *c
				f(&d)
				return d.wellFormed() && try(&d)
			}
			if c.Short != 0 && with(func(d *readmeCase) { d.Short = 0 }) {
				return
			}
			if c.Full && with(func(d *readmeCase) { d.Full = false }) {
				return
			}
			if c.Input != 0 && with(func(d *readmeCase) { d.Input = 0 }) || c.Home != 0 && with(func(d *readmeCase) { d.Home = 0 }) {
				return
			}
			if c.Print && with(func(d *readmeCase) { d.Print = false }) || c.NoEOL && with(func(d *readmeCase) { d.NoEOL = false }) {
				return
			}
			if dropLines(c.Prefix, func(t Text) bool { return with(func(d *readmeCase) { d.Prefix = t }) }) ||
				dropLines(c.Suffix, func(t Text) bool { return with(func(d *readmeCase) { d.Suffix = t }) }) ||
				dropLines(c.Block, func(t Text) bool { return with(func(d *readmeCase) { d.Block = t }) }) {
				return
			}
			for k := len(c.Log) / 2; k > 1; k /= 2 {
				for i := 0; i+k <= len(c.Log); i += k {
					if with(func(d *readmeCase) { d.Log = append(append([]line{}, c.Log[:i]...), c.Log[i+k:]...) }) {
						return
					}
				}
			}
			for i := range c.Log {
				if with(func(d *readmeCase) { d.Log = append(append([]line{}, c.Log[:i]...), c.Log[i+1:]...) }) {
					return
				}
			}
		},
	})
}

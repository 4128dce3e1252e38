// Command asmtool writes build overlays of the library for configurations
// that need its assembly observed:
//
//	asmtool interpose REPO OUT   every slice handed to an assembly routine is
//	                             first moved so that its capacity ends at a
//	                             guard page
//	asmtool trap-avx REPO OUT    a fault before every instruction that needs
//	                             AVX or anything newer
//	asmtool trap-avx2 REPO OUT   a fault before every instruction that AVX does
//	                             not provide
//	asmtool trap-new REPO OUT    a fault before every instruction that AVX and
//	                             AVX2 do not provide
//
// OUT receives overlay.json and the changed files. Nothing in REPO changes.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"asmtool:"}, a...)...)
	os.Exit(3)
}

func check(err error) {
	if err != nil {
		fatal(err)
	}
}

var overlay = map[string]string{}
var outDir string

func put(path string, b []byte) {
	dst := filepath.Join(outDir, fmt.Sprintf("%d_%s", len(overlay), filepath.Base(path)))
	check(os.WriteFile(dst, b, 0o644))
	overlay[path] = dst
}

func main() {
	if len(os.Args) != 4 {
		fatal("usage: asmtool MODE REPO OUT")
	}
	mode, repo := os.Args[1], os.Args[2]
	outDir = os.Args[3]
	check(os.MkdirAll(outDir, 0o755))
	dirs := map[string][]string{}
	check(filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() && strings.HasPrefix(fi.Name(), ".") && p != repo {
			return filepath.SkipDir
		}
		if !fi.IsDir() && strings.HasSuffix(p, ".s") && amd64File(p) {
			dirs[filepath.Dir(p)] = append(dirs[filepath.Dir(p)], p)
		}
		return nil
	}))
	n := 0
	for dir, ss := range dirs {
		if mode == "interpose" {
			n += interpose(dir, ss)
			continue
		}
		for _, s := range ss {
			n += trap(mode, s)
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	check(os.WriteFile(filepath.Join(outDir, "overlay.json"), b, 0o644))
	fmt.Println(n)
}

var osarch = regexp.MustCompile(`_(386|arm|arm64|s390x|ppc64|ppc64le|mips\w*|riscv64|loong64|wasm)\.(s|go)$`)

func amd64File(p string) bool { return !osarch.MatchString(p) && !strings.HasSuffix(p, "_test.go") }

// ---- interposing -------------------------------------------------------------

func interpose(dir string, asm []string) int {
	fset := token.NewFileSet()
	names, err := filepath.Glob(filepath.Join(dir, "*.go"))
	check(err)
	text := map[string]string{}
	for _, s := range asm {
		b, err := os.ReadFile(s)
		check(err)
		text[s] = string(b)
	}
	var extra bytes.Buffer
	pkg := ""
	count := 0
	for _, name := range names {
		if !amd64File(name) {
			continue
		}
		f, err := parser.ParseFile(fset, name, nil, parser.ParseComments)
		check(err)
		var keep []ast.Decl
		changed := false
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body != nil || fd.Recv != nil || !inAsm(text, fd.Name.Name) {
				keep = append(keep, d)
				continue
			}
			pkg = f.Name.Name
			w := wrapper(fset, fd)
			if w == "" {
				keep = append(keep, d)
				continue
			}
			extra.WriteString(w)
			changed = true
			count++
			for s, t := range text {
				text[s] = regexp.MustCompile(`·`+fd.Name.Name+`\(SB\)`).ReplaceAllString(t, "·verifReal"+fd.Name.Name+"(SB)")
			}
			if fd.Doc != nil { // keep the comment list consistent
				var cs []*ast.CommentGroup
				for _, c := range f.Comments {
					if c != fd.Doc {
						cs = append(cs, c)
					}
				}
				f.Comments = cs
			}
		}
		if changed {
			f.Decls = keep
			var b bytes.Buffer
			check(printer.Fprint(&b, fset, f))
			put(name, b.Bytes())
		}
	}
	if count == 0 {
		return 0
	}
	for s, t := range text {
		put(s, []byte(t))
	}
	src, err := format.Source([]byte(strings.ReplaceAll(guardSrc, "PKG", pkg) + extra.String()))
	if err != nil {
		fatal(err, extra.String())
	}
	put(filepath.Join(dir, "zz_verif_interpose_amd64.go"), src)
	return count
}

func inAsm(text map[string]string, name string) bool {
	for _, t := range text {
		if strings.Contains(t, "·"+name+"(SB)") {
			return true
		}
	}
	return false
}

// wrapper returns the source of a Go function in place of fd, or "" when fd
// has a shape we do not handle.
func wrapper(fset *token.FileSet, fd *ast.FuncDecl) string {
	show := func(n any) string {
		var b bytes.Buffer
		check(printer.Fprint(&b, fset, n))
		return b.String()
	}
	var params, args []string
	var body strings.Builder
	k := 0
	for _, f := range fd.Type.Params.List {
		t := show(f.Type)
		if len(f.Names) == 0 {
			return ""
		}
		for _, n := range f.Names {
			p := fmt.Sprintf("p%d", k)
			k++
			_ = n
			params = append(params, p+" "+t)
			kind := ""
			if a, ok := f.Type.(*ast.ArrayType); ok && a.Len == nil {
				switch show(a.Elt) {
				case "uint32":
					kind = "U32"
				case "byte", "uint8":
					kind = "U8"
				}
			}
			if kind == "" {
				args = append(args, p)
				continue
			}
			fmt.Fprintf(&body, "\tq%s, f%s := verifGuard%s(%s)\n\tdefer f%s()\n", p, p, kind, p, p)
			args = append(args, "q"+p)
		}
	}
	if body.Len() == 0 {
		return ""
	}
	res, ret := "", ""
	var named []string
	if fd.Type.Results != nil {
		for _, f := range fd.Type.Results.List {
			m := len(f.Names)
			if m == 0 {
				m = 1
			}
			for ; m > 0; m-- {
				named = append(named, fmt.Sprintf("r%d %s", len(named), show(f.Type)))
			}
		}
		res, ret = " ("+strings.Join(named, ", ")+")", "return "
	}
	ps := strings.Join(params, ", ")
	// the declaration of the real routine repeats the original parameter names
	var decl bytes.Buffer
	d := *fd
	d.Doc = nil
	d.Name = ast.NewIdent("verifReal" + fd.Name.Name)
	check(printer.Fprint(&decl, fset, &d))
	return fmt.Sprintf("\n%s\n\nfunc %s(%s)%s {\n%s\t%sverifReal%s(%s)\n}\n", decl.String(), fd.Name.Name, ps, res, body.String(), ret, fd.Name.Name, strings.Join(args, ", "))
}

const guardSrc = `// Package PKG: guard-page copies of the slices given to assembly.
package PKG

import (
	"bytes"
	"runtime"
	"sync"
	"syscall"
	"unsafe"
)

const verifWin = 4096

type verifMem struct{ b, whole []byte }

var verifPool = sync.Pool{New: func() interface{} {
	m := verifArena()
	runtime.SetFinalizer(m, func(m *verifMem) { syscall.Munmap(m.whole) })
	return m
}}

// verifArena returns two pages whose end is followed by inaccessible memory.
func verifArena() *verifMem {
	m, err := syscall.Mmap(-1, 0, 1<<16, syscall.PROT_NONE, syscall.MAP_PRIVATE|syscall.MAP_ANON)
	if err != nil {
		panic(err)
	}
	a := m[1<<15 : 1<<15+8192 : 1<<15+8192]
	if err := syscall.Mprotect(a, syscall.PROT_READ|syscall.PROT_WRITE); err != nil {
		panic(err)
	}
	return &verifMem{a, m}
}

func verifGuardU8(s []byte) ([]byte, func()) {
	n := cap(s)
	if n == 0 || n > verifWin {
		return s, func() {}
	}
	m := verifPool.Get().(*verifMem)
	a := m.b
	d := a[len(a)-n:]
	full := s[:n]
	copy(d, full)
	return d[:len(s)], func() {
		if !bytes.Equal(d, full) {
			copy(full, d)
		}
		verifPool.Put(m)
	}
}

func verifGuardU32(s []uint32) ([]uint32, func()) {
	n := cap(s)
	if n == 0 || n > verifWin/4 {
		return s, func() {}
	}
	b := (*[1 << 28]byte)(unsafe.Pointer(&s[:1][0]))[: 4*n : 4*n]
	d, f := verifGuardU8(b)
	return (*[1 << 26]uint32)(unsafe.Pointer(&d[:1][0]))[:len(s):n], f
}
`

// ---- traps -------------------------------------------------------------------

var instr = regexp.MustCompile(`^\s+([A-Z][A-Z0-9]*)\b(.*)$`)

const fault = "\tMOVL $0xf1, 0xf1 // not available on the modelled CPU\n"

func trap(mode, path string) int {
	b, err := os.ReadFile(path)
	check(err)
	var out strings.Builder
	n := 0
	for _, l := range strings.SplitAfter(string(b), "\n") {
		code := l
		if i := strings.Index(code, "//"); i >= 0 {
			code = code[:i]
		}
		if m := instr.FindStringSubmatch(strings.TrimRight(code, "\n")); m != nil && needs(mode, m[1], m[2]) {
			out.WriteString(fault)
			n++
		}
		out.WriteString(l)
	}
	if n > 0 {
		put(path, []byte(out.String()))
	}
	return n
}

func needs(mode, op, args string) bool {
	lvl := level(op, args)
	switch mode {
	case "trap-avx":
		return lvl >= 1
	case "trap-avx2":
		return lvl >= 2
	case "trap-new":
		return lvl >= 3
	}
	fatal("mode", mode)
	return false
}

var (
	bmi = regexp.MustCompile(`^(ANDN|BEXTR|BLSI|BLSMSK|BLSR|BZHI|MULX|PDEP|PEXT|RORX|SARX|SHLX|SHRX|TZCNT|LZCNT|ADCX|ADOX)[WLQ]?$`)
	fma = regexp.MustCompile(`^VF(N?M(ADD|SUB)|MADDSUB|MSUBADD)`)
	f16 = regexp.MustCompile(`^VCVT(PH2PS|PS2PH)`)
	// 512-bit extensions: their own registers or mnemonics
	wide   = regexp.MustCompile(`\b(Z[0-9]+|K[0-7]|[XY](1[6-9]|2[0-9]|3[01]))\b`)
	only5  = regexp.MustCompile(`^(K[A-Z]+[BWDQ]$|V(P(ERMB|ERMW|ERMI2|ERMT2|COMPRESS|EXPAND|MULTISHIFTQB|MOV[BWDQ]2M|MOVM2|MOVU?S?[WDQ][BWD]$|ROL|ROR|SRAQ|SRAVQ|SRAVW|SLLVW|SRLVW|TERNLOG|OPCNT|LZCNT|CONFLICT|MINUQ|MINSQ|MAXUQ|MAXSQ|ABSQ|MULLQ|SHLD|SHRD|DPBUSD|DPWSSD|CMPU?[BWDQ]$|TESTN?M|BLENDM|SCATTER|SHUFBITQMB|MADD52)|SCATTER|RNDSCALE|GETEXP|GETMANT|FIXUPIMM|RANGE|REDUCE|SCALEF|MOVDQ[AU](8|16|32|64)|ALIGN[DQ]|BROADCAST[FI](32|64)X|INSERT[FI](32|64)X|EXTRACT[FI](32|64)X|SHUF[FI](32|64)X|DBPSADBW|GF2P8|PCLMUL.*512|AES.*512))`)
	crypto = regexp.MustCompile(`^(VGF2P8|GF2P8|SHA(1|256)|RDRAND|RDSEED|CLFLUSHOPT|CLWB)`)
	avx2x  = regexp.MustCompile(`^V(PBROADCAST[BWDQ]|INSERTI128|EXTRACTI128|PERM2I128|PERM(D|Q|PS|PD)$|PBLENDD|PS[LR]LV[DQ]|PSRAVD|PGATHER|GATHER|PMASKMOV|BROADCASTI128)`)
	// instructions that AVX itself provides on 256-bit registers
	avxY   = regexp.MustCompile(`^V(ADD|SUB|MUL|DIV|MIN|MAX|AND|ANDN|OR|XOR|SQRT|RCP|RSQRT|ROUND|CMP|BLENDV?|SHUF|UNPCK[LH]|HADD|HSUB|ADDSUB|DP|TEST|MOVMSK|MASKMOV|MOVA|MOVU|MOVNT)P[SD]$|^V(MOVDQ[AU]|LDDQU|MOVNTDQ|MOVSHDUP|MOVSLDUP|MOVDDUP|BROADCASTS[SD]|BROADCASTF128|INSERTF128|EXTRACTF128|PERM2F128|PERMILP[SD]|PTEST|ZEROUPPER|ZEROALL)$|^VCVT`)
	regSrc = regexp.MustCompile(`^\s*[XY][0-9]+\s*,`)
)

// level is 0 for instructions of the baseline, 1 for AVX, 2 for AVX2, 3 for
// anything newer or separate from them.
func level(op, args string) int {
	switch {
	case wide.MatchString(args), only5.MatchString(op), crypto.MatchString(op):
		return 3
	case bmi.MatchString(op), fma.MatchString(op), f16.MatchString(op):
		return 2 // not on every AVX CPU; every AVX2 CPU has them
	case !strings.HasPrefix(op, "V") || op == "VERR" || op == "VERW":
		return 0
	case avx2x.MatchString(op):
		return 2
	case strings.HasPrefix(op, "VBROADCASTS") && regSrc.MatchString(args):
		return 2
	case regexp.MustCompile(`\bY[0-9]+\b`).MatchString(args) && !avxY.MatchString(op):
		return 2
	}
	return 1
}

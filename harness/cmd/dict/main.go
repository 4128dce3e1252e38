// Command dict collects the integer constants of the library's own sources
// (outside generated tables and tests), so that generators can put sizes,
// counts and values next to them, and what its conditions compare single
// elements with, so that several elements can be what it takes at once:
//
//	dict REPO > dict.json
package main

import (
	"encoding/json"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

var vals = map[uint32]bool{}

// group is values at positions (-1: somewhere) that belong together, and what
// else is compared with besides (counts, bases).
type group struct {
	At  []int
	Val []uint32
	Num []uint32 `json:",omitempty"`
}

var (
	groups []group
	known  = map[string]bool{}
)

func addGroup(g group) {
	b, _ := json.Marshal(g)
	if (len(g.At) > 0 || len(g.Num) > 1) && !known[string(b)] {
		known[string(b)] = true
		groups = append(groups, g)
	}
}

// element takes X[i], however converted, shifted or masked.
func element(e ast.Expr, consts map[string]ast.Expr) (at int, ok bool) {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return element(e.X, consts)
	case *ast.CallExpr:
		if len(e.Args) == 1 {
			return element(e.Args[0], consts)
		}
	case *ast.BinaryExpr:
		if at, ok = element(e.X, consts); ok {
			return
		}
		return element(e.Y, consts)
	case *ast.IndexExpr:
		at = -1
		if v := eval(e.Index, consts, 0); v != nil {
			if u, ok := constant.Uint64Val(constant.ToInt(v)); ok && u < 1<<12 {
				at = int(u)
			}
		}
		return at, true
	case *ast.SliceExpr: // as in binary.LittleEndian.Uint32(b[4:])
		if e.Low == nil {
			return 0, true
		}
		if v := eval(e.Low, consts, 0); v != nil {
			if u, ok := constant.Uint64Val(constant.ToInt(v)); ok && u < 1<<12 {
				return int(u), true
			}
		}
		return -1, true
	}
	return
}

// compared collects the comparisons of elements with constants in n.
func compared(n ast.Node, consts map[string]ast.Expr) (g group) {
	ast.Inspect(n, func(n ast.Node) bool {
		b, ok := n.(*ast.BinaryExpr)
		if !ok {
			return true
		}
		switch b.Op {
		case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
		default:
			return true
		}
		x, y := b.X, b.Y
		v := eval(y, consts, 0)
		if v == nil {
			x, v = y, eval(x, consts, 0)
		}
		if v == nil {
			return true
		}
		at, ok := element(x, consts)
		if u, exact := constant.Uint64Val(constant.ToInt(v)); exact && u <= 0xffffffff {
			switch {
			case b.Op == token.LSS && u > 0:
				u--
			case b.Op == token.GTR:
				u++
			}
			if ok {
				g.At, g.Val = append(g.At, at), append(g.Val, uint32(u))
			} else if len(g.Num) < 12 {
				g.Num = append(g.Num, uint32(u))
			}
		}
		return true
	})
	return
}

// literal is a string or a list of numbers as a group.
func literal(n ast.Node, consts map[string]ast.Expr) (g group) {
	switch n := n.(type) {
	case *ast.BasicLit:
		if n.Kind == token.STRING {
			if s, err := strconv.Unquote(n.Value); err == nil && len(s) > 1 && len(s) <= 16 && !strings.ContainsAny(s, "/% ") {
				for i := range []byte(s) {
					g.At, g.Val = append(g.At, i), append(g.Val, uint32(s[i]))
				}
			}
		}
	case *ast.CompositeLit:
		if len(n.Elts) < 2 || len(n.Elts) > 64 {
			return
		}
		for i, e := range n.Elts {
			v := eval(e, consts, 0)
			if v == nil {
				return group{}
			}
			u, ok := constant.Uint64Val(constant.ToInt(v))
			if !ok || u > 0xffffffff {
				return group{}
			}
			g.At, g.Val = append(g.At, i), append(g.Val, uint32(u))
		}
	}
	return
}

func add(v constant.Value) {
	v = constant.ToInt(v)
	if v.Kind() != constant.Int {
		return
	}
	if u, ok := constant.Uint64Val(v); ok && u <= 0xffffffff && u > 8 {
		vals[uint32(u)] = true
	}
}

func eval(e ast.Expr, consts map[string]ast.Expr, depth int) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	if depth > 8 {
		return nil
	}
	switch e := e.(type) {
	case *ast.BasicLit:
		if e.Kind == token.INT {
			return constant.MakeFromLiteral(e.Value, e.Kind, 0)
		}
	case *ast.ParenExpr:
		return eval(e.X, consts, depth+1)
	case *ast.Ident:
		if x, ok := consts[e.Name]; ok {
			return eval(x, consts, depth+1)
		}
	case *ast.UnaryExpr:
		if x := eval(e.X, consts, depth+1); x != nil {
			return constant.UnaryOp(e.Op, x, 32)
		}
	case *ast.BinaryExpr:
		x, y := eval(e.X, consts, depth+1), eval(e.Y, consts, depth+1)
		if x == nil || y == nil {
			return nil
		}
		switch e.Op {
		case token.SHL, token.SHR:
			if s, ok := constant.Uint64Val(y); ok && s < 40 {
				return constant.Shift(x, e.Op, uint(s))
			}
		case token.QUO:
			return constant.BinaryOp(x, token.QUO_ASSIGN, y) // integer division
		case token.ADD, token.SUB, token.MUL, token.REM, token.OR, token.AND, token.XOR:
			return constant.BinaryOp(x, e.Op, y)
		}
	}
	return nil
}

func main() {
	repo := os.Args[1]
	imm := regexp.MustCompile(`\$(0x[0-9a-fA-F]+|[0-9]+)\b`)
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if strings.HasPrefix(fi.Name(), ".") && p != repo || fi.Name() == "main" || fi.Name() == "tools" {
				return filepath.SkipDir
			}
			return nil
		}
		switch {
		case strings.HasSuffix(p, ".s"):
			b, _ := os.ReadFile(p)
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(l, "DATA") || strings.HasPrefix(l, "GLOBL") || strings.HasPrefix(l, "TEXT") {
					continue
				}
				for _, m := range imm.FindAllStringSubmatch(l, -1) {
					if u, err := strconv.ParseUint(m[1], 0, 32); err == nil && u > 8 {
						vals[uint32(u)] = true
					}
				}
			}
		case strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go"):
			f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
			if err != nil {
				return nil
			}
			consts := map[string]ast.Expr{}
			ast.Inspect(f, func(n ast.Node) bool {
				if g, ok := n.(*ast.GenDecl); ok && g.Tok == token.CONST {
					for _, s := range g.Specs {
						v := s.(*ast.ValueSpec)
						for i := range v.Names {
							if i < len(v.Values) {
								consts[v.Names[i].Name] = v.Values[i]
							}
						}
					}
				}
				return true
			})
			ast.Inspect(f, func(n ast.Node) bool {
				if c, ok := n.(*ast.CompositeLit); ok && len(c.Elts) > 64 {
					return false
				}
				switch n := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.FuncDecl:
					addGroup(compared(n, consts))
				case *ast.SwitchStmt:
					at, ok := 0, false
					if n.Tag != nil {
						at, ok = element(n.Tag, consts)
					}
					for _, c := range n.Body.List {
						g := compared(c, consts)
						for _, e := range c.(*ast.CaseClause).List {
							h := group{append([]int(nil), g.At...), append([]uint32(nil), g.Val...), g.Num}
							if v := eval(e, consts, 0); v != nil && ok {
								if u, exact := constant.Uint64Val(constant.ToInt(v)); exact && u <= 0xffffffff {
									h.At, h.Val = append(h.At, at), append(h.Val, uint32(u))
								}
							}
							addGroup(h)
						}
					}
				case *ast.IfStmt:
					if n.Cond != nil {
						addGroup(compared(n.Cond, consts))
					}
				case *ast.BasicLit, *ast.CompositeLit:
					addGroup(literal(n, consts))
				}
				if e, ok := n.(ast.Expr); ok {
					if v := eval(e, consts, 0); v != nil {
						add(v)
					}
				}
				return true
			})
		}
		return nil
	})
	var l []uint32
	for v := range vals {
		l = append(l, v)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	if len(l) > 120 {
		l = l[:120]
	}
	if len(groups) > 60 {
		groups = groups[:60]
	}
	json.NewEncoder(os.Stdout).Encode(map[string]any{"vals": l, "groups": groups})
}

// Command contexts lists the sets of source files that the library is built
// from on x86-64, over operating systems, build modes, release and custom
// tags: contexts DIR prints them as JSON, with the ways to get each.
package main

import (
	"encoding/json"
	"fmt"
	"go/build"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

var systems = []string{"linux", "windows", "darwin", "freebsd", "netbsd", "openbsd", "dragonfly", "solaris", "illumos", "plan9", "android", "ios"}

// tags that mark files as programs of their own rather than parts of the library
var apart = map[string]bool{"ignore": true, "tools": true, "generate": true, "none": true, "never": true}

type set struct {
	Files  []string   `json:"files"`
	System string     `json:"system,omitempty"` // set if the sources ask for the system's name
	Ways   [][]string `json:"ways"`             // system, then tags
	Real   bool       `json:"real"`             // this is what the toolchain picks here by default
	Custom bool       `json:"custom"`           // needs tags that are neither Go's nor the toolchain's
}

func main() {
	root := os.Args[1]
	var pkgs []string
	filepath.WalkDir(root, func(p string, e os.DirEntry, err error) error {
		if err != nil || !e.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		if n := e.Name(); rel != "." && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor" || rel == "tools") {
			return filepath.SkipDir
		}
		pkgs = append(pkgs, rel)
		return nil
	})
	mentioned := map[string]bool{}
	for _, p := range pkgs {
		files, _ := filepath.Glob(filepath.Join(root, p, "*"))
		for _, f := range files {
			if ext := filepath.Ext(f); ext != ".go" && ext != ".s" || strings.HasSuffix(f, "_test.go") {
				continue
			}
			for _, t := range tagsOf(f) {
				mentioned[t] = true
			}
		}
	}
	known := map[string]bool{"amd64": true, "gc": true, "unix": true}
	for _, a := range strings.Fields("386 arm arm64 loong64 mips mipsle mips64 mips64le ppc64 ppc64le riscv64 s390x wasm sparc64 riscv ppc armbe arm64be amd64p32 mips64p32 mips64p32le s390 sparc aix js wasip1 hurd nacl zos") {
		known[a] = true
	}
	for _, s := range systems {
		known[s] = true
	}
	release := regexp.MustCompile(`^go1\.(\d+)$`)
	level := regexp.MustCompile(`^amd64\.v[1-4]$`)
	var free []string        // tags that can be on or off
	var releases = []int{99} // the toolchain's age
	var levels = []int{1}    // GOAMD64
	custom := map[string]bool{}
	for t := range mentioned {
		if m := release.FindStringSubmatch(t); m != nil {
			n := 0
			fmt.Sscan(m[1], &n)
			if n > 16 { // the module needs Go 1.16
				releases = append(releases, n-1)
			}
		} else if level.MatchString(t) {
			levels = append(levels, int(t[7]-'0'))
		} else if !known[t] && !apart[t] && !strings.HasPrefix(t, "goexperiment.") {
			free = append(free, t)
			custom[t] = t != "race" && t != "msan" && t != "asan" && t != "cgo" && t != "gccgo"
		}
	}
	sort.Strings(free)
	sort.Sort(sort.Reverse(sort.IntSlice(releases)))
	sort.Ints(levels)
	if len(free) > 6 {
		free = free[:6]
	}
	sets := map[string]*set{}
	var order []*set
	for _, os := range systems {
		for _, rel := range releases {
			for _, lev := range levels {
				for m := 0; m < 1<<uint(len(free)); m++ {
					ctx := build.Default
					ctx.GOOS, ctx.GOARCH, ctx.CgoEnabled, ctx.Compiler = os, "amd64", false, "gc"
					ctx.BuildTags = nil
					way, cust := []string{os}, false
					for i, t := range free {
						if m>>uint(i)&1 == 0 {
							continue
						}
						way, cust = append(way, t), cust || custom[t]
						switch t {
						case "cgo":
							ctx.CgoEnabled = true
						case "gccgo":
							ctx.Compiler = "gccgo"
						default:
							ctx.BuildTags = append(ctx.BuildTags, t)
						}
					}
					var rt []string
					for i := 1; i <= rel; i++ {
						rt = append(rt, fmt.Sprintf("go1.%d", i))
					}
					ctx.ReleaseTags = rt
					if rel != 99 {
						way = append(way, rt[rel-1])
					}
					ctx.ToolTags = nil
					for i := 1; i <= lev; i++ {
						ctx.ToolTags = append(ctx.ToolTags, fmt.Sprintf("amd64.v%d", i))
					}
					if lev > 1 {
						way = append(way, ctx.ToolTags[lev-1])
					}
					files, named := list(&ctx, root, pkgs)
					if files == nil {
						continue
					}
					key := strings.Join(files, "\n")
					sys := ""
					if named {
						sys = os
						key += "\n" + os
					}
					s := sets[key]
					if s == nil {
						s = &set{Files: files, System: sys, Real: len(order) == 0, Custom: cust}
						sets[key] = s
						order = append(order, s)
					}
					s.Custom = s.Custom && cust
					s.Ways = append(s.Ways, way)
				}
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(order)
}

// tagsOf gives the tags a file's constraints and name mention.
func tagsOf(f string) []string {
	var tags []string
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "package ") {
			break
		}
		if !constraint.IsGoBuild(l) && !constraint.IsPlusBuild(l) {
			continue
		}
		x, err := constraint.Parse(l)
		if err != nil {
			continue
		}
		collect(x, &tags)
	}
	return tags
}

func collect(x constraint.Expr, tags *[]string) {
	switch x := x.(type) {
	case *constraint.TagExpr:
		*tags = append(*tags, x.Tag)
	case *constraint.NotExpr:
		collect(x.X, tags)
	case *constraint.AndExpr:
		collect(x.X, tags)
		collect(x.Y, tags)
	case *constraint.OrExpr:
		collect(x.X, tags)
		collect(x.Y, tags)
	}
}

var asks = regexp.MustCompile(`\bruntime\.GOOS\b`)

func list(ctx *build.Context, root string, pkgs []string) (files []string, named bool) {
	for _, p := range pkgs {
		dir := filepath.Join(root, p)
		all, _ := os.ReadDir(dir)
		for _, e := range all {
			n := e.Name()
			ext := filepath.Ext(n)
			if e.IsDir() || ext != ".go" && ext != ".s" || strings.HasSuffix(n, "_test.go") {
				continue
			}
			if ok, err := ctx.MatchFile(dir, n); err != nil || !ok {
				continue
			}
			b, _ := os.ReadFile(filepath.Join(dir, n))
			if ext == ".go" {
				f, err := parser.ParseFile(token.NewFileSet(), n, b, parser.PackageClauseOnly)
				if err != nil || f.Name.Name == "main" || f.Name.Name == "documentation" {
					continue
				}
				named = named || asks.Match(b)
			}
			files = append(files, filepath.ToSlash(filepath.Join(p, n)))
		}
	}
	return files, named
}

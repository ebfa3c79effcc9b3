package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// pauses writes an overlay of the packages listed (one line each: directory,
// package name, import path, Go files; separated by tabs) in which every
// statement of every function is preceded by a point where the goroutine may
// be made to wait. Nothing else changes: line numbers stay as they are.
func pauses(listing, dir string) error {
	repl := map[string]string{}
	sites := 0
	for n, line := range strings.Split(strings.TrimSpace(listing), "\n") {
		part := strings.Split(line, "\t")
		if len(part) < 4 {
			continue
		}
		src, name, files := part[0], part[1], part[3:]
		before := sites
		for _, f := range files {
			path := filepath.Join(src, f)
			text, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			fset := token.NewFileSet()
			tree, err := parser.ParseFile(fset, path, text, parser.SkipObjectResolution)
			if err != nil {
				return err
			}
			var at []int
			add := func(list []ast.Stmt) {
				for _, s := range list {
					if _, ok := s.(*ast.EmptyStmt); ok {
						continue
					}
					if p := fset.PositionFor(s.Pos(), false); p.IsValid() {
						at = append(at, p.Offset)
					}
				}
			}
			for _, d := range tree.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && (fd.Body == nil || directive(fd.Doc)) {
					continue
				}
				ast.Inspect(d, func(x ast.Node) bool {
					switch x := x.(type) {
					case *ast.SwitchStmt: // its body holds clauses, not statements
						for _, c := range x.Body.List {
							add(c.(*ast.CaseClause).Body)
						}
					case *ast.TypeSwitchStmt:
						for _, c := range x.Body.List {
							add(c.(*ast.CaseClause).Body)
						}
					case *ast.SelectStmt:
						for _, c := range x.Body.List {
							add(c.(*ast.CommClause).Body)
						}
					case *ast.BlockStmt:
						if len(x.List) > 0 {
							switch x.List[0].(type) {
							case *ast.CaseClause, *ast.CommClause:
								return true
							}
						}
						add(x.List)
					}
					return true
				})
			}
			if len(at) == 0 {
				continue
			}
			sort.Ints(at)
			var b bytes.Buffer
			last := 0
			for i, o := range at {
				if i > 0 && at[i-1] == o {
					continue
				}
				b.Write(text[last:o])
				fmt.Fprintf(&b, "verifPause(%d); ", sites-before)
				sites++
				last = o
			}
			b.Write(text[last:])
			out := filepath.Join(dir, fmt.Sprintf("%d_%s", n, f))
			if err := os.WriteFile(out, b.Bytes(), 0o644); err != nil {
				return err
			}
			repl[path] = out
		}
		if sites == before {
			continue
		}
		out := filepath.Join(dir, fmt.Sprintf("%d_zz_verif_pause.go", n))
		text := strings.NewReplacer("PACKAGE", name, "SITES", fmt.Sprint(sites-before)).Replace(pauseFile)
		if err := os.WriteFile(out, []byte(text), 0o644); err != nil {
			return err
		}
		repl[filepath.Join(src, "zz_verif_pause.go")] = out
	}
	if sites == 0 {
		return fmt.Errorf("no statement to pause at")
	}
	os.WriteFile(filepath.Join(dir, "sites"), []byte(fmt.Sprint(sites)), 0o644)
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	return os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0o644)
}

func directive(g *ast.CommentGroup) bool {
	if g != nil {
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:") {
				return true
			}
		}
	}
	return false
}

// VERIF_PAUSE is "weight,kind,seed,file": a point reached for the n-th time
// waits with probability weight/n (always while n <= weight).
const pauseFile = `package PACKAGE

import (
	verifAtomic "sync/atomic"
	verifFmt "fmt"
	verifOS "os"
	verifRuntime "runtime"
	verifTime "time"
)

var (
	verifHits   [SITES]verifAtomic.Uint64
	verifWeight uint64
	verifKind   uint64
	verifSeed   uint64
)

// initialised before the other variables of the package, whatever they call
var verifReady = verifSetup()

func verifSetup() bool {
	verifFmt.Sscanf(verifOS.Getenv("VERIF_PAUSE"), "%d,%d,%d", &verifWeight, &verifKind, &verifSeed)
	return true
}

func verifPause(site int) {
	if verifWeight == 0 {
		return
	}
	n := verifHits[site].Add(1)
	h := (n+verifSeed)*0x9E3779B97F4A7C15 ^ uint64(site)*0xD6E8FEB86659FD93
	h ^= h >> 29
	h *= 0xBF58476D1CE4E5B9
	h ^= h >> 32
	if n > verifWeight && h%n >= verifWeight {
		return
	}
	h >>= 7
	switch {
	case verifKind == 0 || h%10 < 5:
		verifRuntime.Gosched()
	case verifKind == 1 || h%10 < 8:
		verifTime.Sleep(verifTime.Duration(1+h%40) * verifTime.Microsecond)
	default:
		verifTime.Sleep(verifTime.Duration(50+h%800) * verifTime.Microsecond)
	}
}
`

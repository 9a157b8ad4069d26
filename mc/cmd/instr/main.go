//go:build go1.23

// Command instr writes copies of Go files with a call of sched.P before every
// statement and package zzsync in place of package sync.
//
//	instr OUTDIR PKGDIR...
//	instr pool FILE N
//
// It prints lines of an overlay file. The second form writes a Go file with
// N instances of recursive types.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const base = "github.com/itstarsun/go-thrift/internal/zzverif/"

type insertion struct {
	off, del int
	text     string
}

func main() {
	if os.Args[1] == "pool" {
		pool(os.Args[2], os.Args[3])
		return
	}
	out := os.Args[1]
	n := 0
	for _, dir := range os.Args[2:] {
		names, err := filepath.Glob(filepath.Join(dir, "*.go"))
		check(err)
		fset := token.NewFileSet()
		files := map[string]*ast.File{}
		vars := map[string]bool{}
		for _, name := range names {
			if strings.HasSuffix(name, "_test.go") {
				continue
			}
			f, err := parser.ParseFile(fset, name, nil, parser.ParseComments)
			if err != nil {
				continue // the build will say
			}
			files[name] = f
			for _, d := range f.Decls {
				if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
					for _, s := range g.Specs {
						for _, id := range s.(*ast.ValueSpec).Names {
							vars[id.Name] = true
						}
					}
				}
			}
		}
		names = names[:0]
		for name := range files {
			names = append(names, name)
		}
		sort.Strings(names)
		for _, name := range names {
			src, err := os.ReadFile(name)
			check(err)
			dst := filepath.Join(out, fmt.Sprintf("%d_%s", n, filepath.Base(name)))
			n++
			check(os.WriteFile(dst, instrument(fset, files[name], src, vars), 0o600))
			fmt.Printf("\"%s\": \"%s\",\n", name, dst)
		}
	}
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func instrument(fset *token.FileSet, f *ast.File, src []byte, vars map[string]bool) []byte {
	var ins []insertion
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(p token.Pos, del int, text string) { ins = append(ins, insertion{off(p), del, text}) }

	add(f.Name.End(), 0, "; import zzsched \""+base+"sched\"")
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			t := `"` + base + `zzsync"`
			if im.Name == nil {
				t = "sync " + t
			}
			add(im.Path.Pos(), len(im.Path.Value), t)
		}
	}

	var lits []*ast.FuncLit // enclosing
	shared := func(n ast.Node) bool {
		found := false
		skip := map[ast.Node]bool{}
		ast.Inspect(n, func(x ast.Node) bool {
			if found || skip[x] {
				return false
			}
			switch x := x.(type) {
			case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
				return false // has statements of its own
			case *ast.FuncLit:
				return false
			case *ast.SelectorExpr:
				skip[x.Sel] = true
			case *ast.Ident:
				if x.Obj == nil || x.Obj.Pos() == token.NoPos {
					found = found || vars[x.Name]
				} else if x.Obj.Kind == ast.Var {
					if vars[x.Name] && f.Scope != nil && f.Scope.Lookup(x.Name) == x.Obj {
						found = true
					} else if len(lits) > 0 {
						in := lits[len(lits)-1]
						found = found || x.Obj.Pos() < in.Pos() || x.Obj.Pos() >= in.End()
					}
				}
			}
			return true
		})
		return found
	}
	var visit func(n ast.Node)
	list := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			kind := 0
			if shared(s) {
				kind = 1
			}
			add(s.Pos(), 0, fmt.Sprintf("zzsched.P(%d); ", kind))
		}
	}
	visit = func(n ast.Node) {
		ast.Inspect(n, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.FuncLit:
				if x != n {
					lits = append(lits, x)
					list(x.Body.List)
					for _, s := range x.Body.List {
						visit(s)
					}
					lits = lits[:len(lits)-1]
					return false
				}
			case *ast.SwitchStmt: // its body has clauses, not statements
				clauses(x.Body, list)
				return true
			case *ast.TypeSwitchStmt:
				clauses(x.Body, list)
				return true
			case *ast.SelectStmt:
				clauses(x.Body, list)
				return true
			case *ast.BlockStmt:
				if len(x.List) > 0 {
					switch x.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(x.List)
			}
			return true
		})
	}
	for _, d := range f.Decls {
		visit(d)
	}
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var b strings.Builder
	last := 0
	for _, i := range ins {
		b.Write(src[last:i.off])
		b.WriteString(i.text)
		last = i.off + i.del
	}
	b.Write(src[last:])
	b.WriteString("\nvar _ = zzsched.P\n")
	return []byte(b.String())
}

func clauses(b *ast.BlockStmt, list func([]ast.Stmt)) {
	for _, c := range b.List {
		switch c := c.(type) {
		case *ast.CaseClause:
			list(c.Body)
		case *ast.CommClause:
			list(c.Body)
		}
	}
}

func pool(file, count string) {
	n, err := strconv.Atoi(count)
	check(err)
	var b strings.Builder
	b.WriteString("//go:build go1.23\n\npackage main\n\nfunc init() {\n\tpool = []instance{\n")
	for i := range n {
		fmt.Fprintf(&b, "\t\t{(*R[[%d]struct{}])(nil), (*A[[%d]struct{}])(nil)},\n", i, i)
	}
	b.WriteString("\t}\n}\n")
	check(os.WriteFile(file, []byte(b.String()), 0o600))
}

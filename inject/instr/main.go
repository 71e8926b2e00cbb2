// Command instr writes an instrumented copy of the Go files of a module, with a
// scheduling point before every statement, and prints overlay entries for it.
//
//	instr REPO MODULE OUTDIR
//
// Statements that mention a package-level variable of the module, or package
// atomic, get a point of kind G, all others one of kind P. Imports of sync are
// redirected to MODULE/internal/zzsync.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type file struct {
	path string
	src  []byte
	f    *ast.File
	pkg  string // import path
}

func main() {
	repo, module, out := os.Args[1], os.Args[2], os.Args[3]
	fset := token.NewFileSet()
	var files []*file
	skip := map[string]bool{"cmd": true, "ci": true, ".git": true, "testdata": true, "fakebackend": true, "zzverif": true, "zzsched": true, "zzsync": true}
	err := filepath.Walk(repo, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			if p != repo && (skip[info.Name()] || strings.HasPrefix(info.Name(), ".") || strings.HasPrefix(info.Name(), "_")) {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			return err
		}
		if f.Name.Name == "main" {
			return nil
		}
		for _, cg := range f.Comments {
			for _, c := range cg.List {
				if c.Pos() < f.Package && (strings.HasPrefix(c.Text, "//go:build") || strings.HasPrefix(c.Text, "// +build")) {
					return nil
				}
			}
		}
		rel, _ := filepath.Rel(repo, filepath.Dir(p))
		pkg := module
		if rel != "." {
			pkg = module + "/" + filepath.ToSlash(rel)
		}
		files = append(files, &file{p, src, f, pkg})
		return nil
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
	vars := map[string]map[string]bool{} // package variables by import path
	for _, f := range files {
		if vars[f.pkg] == nil {
			vars[f.pkg] = map[string]bool{}
		}
		for _, d := range f.f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						if n.Name != "_" {
							vars[f.pkg][n.Name] = true
						}
					}
				}
			}
		}
	}
	id := 0
	for k, f := range files {
		imports := map[string]string{} // local name to import path, module packages only
		atomic := map[string]bool{}
		type ins struct {
			at   int
			text string
			del  int
		}
		var edits []ins
		for _, im := range f.f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			name := filepath.Base(p)
			if im.Name != nil {
				name = im.Name.Name
			}
			if p == module || strings.HasPrefix(p, module+"/") {
				if im.Name == nil {
					for _, o := range files {
						if o.pkg == p {
							name = o.f.Name.Name
						}
					}
				}
				imports[name] = p
			}
			if p == "sync/atomic" {
				atomic[name] = true
			}
			if p == "sync" {
				text := strconv.Quote(module + "/internal/zzsync")
				if im.Name == nil {
					text = "sync " + text
				}
				edits = append(edits, ins{fset.Position(im.Path.Pos()).Offset, text, len(im.Path.Value)})
			}
		}
		shared := func(n ast.Node) bool {
			found := false
			var visit func(n ast.Node) bool
			visit = func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					return false
				case *ast.CaseClause, *ast.CommClause:
					return false
				case *ast.SelectorExpr:
					if x, ok := n.X.(*ast.Ident); ok {
						if p, ok := imports[x.Name]; ok && vars[p][n.Sel.Name] {
							found = true
						}
						if atomic[x.Name] {
							found = true
						}
					}
					ast.Inspect(n.X, visit)
					return false
				case *ast.Ident:
					if vars[f.pkg][n.Name] {
						found = true
					}
				}
				return !found
			}
			ast.Inspect(n, visit)
			return found
		}
		block := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				call := "P"
				if shared(s) {
					call = "G"
				}
				id++
				edits = append(edits, ins{fset.Position(s.Pos()).Offset, fmt.Sprintf("zzsched.%s(%d);", call, id), 0})
			}
		}
		n := len(edits)
		ast.Inspect(f.f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.SwitchStmt:
				for _, c := range n.Body.List {
					block(c.(*ast.CaseClause).Body)
				}
			case *ast.TypeSwitchStmt:
				for _, c := range n.Body.List {
					block(c.(*ast.CaseClause).Body)
				}
			case *ast.SelectStmt:
				for _, c := range n.Body.List {
					block(c.(*ast.CommClause).Body)
				}
			case *ast.FuncDecl:
				if n.Body != nil {
					block(n.Body.List)
				}
			case *ast.FuncLit:
				block(n.Body.List)
			case *ast.IfStmt:
				block(n.Body.List)
				if e, ok := n.Else.(*ast.BlockStmt); ok {
					block(e.List)
				}
			case *ast.ForStmt:
				block(n.Body.List)
			case *ast.RangeStmt:
				block(n.Body.List)
			case *ast.BlockStmt:
				for _, s := range n.List {
					if b, ok := s.(*ast.BlockStmt); ok {
						block(b.List)
					}
				}
			}
			return true
		})
		if len(edits) > n {
			edits = append(edits, ins{fset.Position(f.f.Name.End()).Offset, fmt.Sprintf(";import zzsched %q", module+"/internal/zzsched"), 0})
		}
		if len(edits) == 0 {
			continue
		}
		sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
		var b strings.Builder
		last := 0
		for _, e := range edits {
			b.Write(f.src[last:e.at])
			b.WriteString(e.text)
			last = e.at + e.del
		}
		b.Write(f.src[last:])
		name := filepath.Join(out, fmt.Sprintf("instr_%d_%s", k, filepath.Base(f.path)))
		if err := os.WriteFile(name, []byte(b.String()), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "instr:", err)
			os.Exit(1)
		}
		fmt.Printf("%q:%q,\n", f.path, name)
	}
	fmt.Fprintf(os.Stderr, "instr: %d files, %d points\n", len(files), id)
}

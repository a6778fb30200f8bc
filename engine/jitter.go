package main

import (
	"bytes"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// jitterOverlay copies the concurrent source files of the repository with a
// random pause before every statement, so that replaying a schedule-dependent
// finding meets many schedules.
func jitterOverlay(repo, tmp string, ov map[string]string) {
	n := 0
	filepath.Walk(repo, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if i.IsDir() {
			if b := i.Name(); p != repo && (b == "zzverif" || strings.HasPrefix(b, ".") || b == "vendor" || b == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		if _, has := ov[p]; has {
			return nil
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, nil, 0)
		if err != nil {
			return nil
		}
		conc := false
		ast.Inspect(f, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt:
				conc = true
			case *ast.UnaryExpr:
				conc = conc || y.Op == token.ARROW
			case *ast.ImportSpec:
				s, _ := strconv.Unquote(y.Path.Value)
				conc = conc || strings.HasPrefix(s, "sync")
			}
			return true
		})
		if !conc {
			return nil
		}
		pause := func(l []ast.Stmt) []ast.Stmt {
			var r []ast.Stmt
			for _, s := range l {
				call := &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("zzsym"), Sel: ast.NewIdent("Jitter")}}
				r = append(r, &ast.ExprStmt{X: call}, s)
			}
			return r
		}
		ast.Inspect(f, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.BlockStmt:
				clauses := false
				for _, s := range y.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						clauses = true
					}
				}
				if !clauses {
					y.List = pause(y.List)
				}
			case *ast.CaseClause:
				y.Body = pause(y.Body)
			case *ast.CommClause:
				y.Body = pause(y.Body)
			}
			return true
		})
		f.Comments = nil
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{
			Name: ast.NewIdent("zzsym"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(modPath + "/zzverif/sym")}}}}}, f.Decls...)
		var b bytes.Buffer
		if printer.Fprint(&b, fs, f) != nil {
			return nil
		}
		n++
		q := filepath.Join(tmp, "jit"+strconv.Itoa(n)+".go")
		if os.WriteFile(q, b.Bytes(), 0o644) == nil {
			ov[p] = q
		}
		return nil
	})
}

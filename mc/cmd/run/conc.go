package main

import (
	"bytes"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"

	"verifmc/corpus"
)

// runC01: generated code under all interleavings of its statements.
func runC01(w *Work, spec propSpec, res *Result) {
	w.Materialise(corpus.Packages(spec.sets(*fTier)...))
	w.Prepare()
	if len(w.Pkgs) == 0 {
		fatal("nothing of the corpus could be generated and compiled")
	}
	points := 0
	for _, p := range w.Pkgs {
		d := filepath.Join(w.mod(), p.Path)
		ents, err := os.ReadDir(d)
		must(err)
		for _, e := range ents {
			if n := e.Name(); strings.HasSuffix(n, "_json.go") || n == "valyjson_utils.go" {
				points += instrument(filepath.Join(d, n))
			}
		}
	}
	res.Extra["points_inserted"] = points
	explore(w, w.Link(), res)
	w.notBuilt(res)
}

// instrument puts a scheduling point before every statement of the file.
func instrument(file string) int {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, nil, parser.SkipObjectResolution)
	must(err)
	n := 0
	points := func(list []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range list {
			n++
			out = append(out, &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("verifpoint"), Sel: ast.NewIdent("Point")}}}, s)
		}
		return out
	}
	ast.Inspect(f, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.BlockStmt:
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			x.List = points(x.List)
		case *ast.CaseClause:
			x.Body = points(x.Body)
		case *ast.CommClause:
			x.Body = points(x.Body)
		}
		return true
	})
	if n == 0 {
		return 0
	}
	f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("verifpoint"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"corpus/h"`}}}}}, f.Decls...)
	var b bytes.Buffer
	must(format.Node(&b, fset, f))
	must(os.WriteFile(file, b.Bytes(), 0o644))
	return n
}

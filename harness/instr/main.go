// instr OUTDIR MODE FILE...: writes instrumented copies of Go sources.
// MODE 2: import of sync replaced, scheduling points before statements and
// within read-modify-write statements; MODE 1: scheduling points before
// statements only; MODE 0: import of sync replaced only.
package main

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

const shim = "github.com/wearelumenai/distclus/internal/vsync"

func yield() ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{
		X: ast.NewIdent("vsyncpkg"), Sel: ast.NewIdent("Yield")}}}
}

var mode int
var ntmp int

func tmp() *ast.Ident { ntmp++; return ast.NewIdent("vsynctmp" + strconv.Itoa(ntmp)) }

func isPlace(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.SelectorExpr:
		_, ok := x.X.(*ast.Ident)
		return ok
	}
	return false
}

// split a read-modify-write statement
func split(s ast.Stmt) ast.Stmt {
	if mode < 2 {
		return s
	}
	var place ast.Expr
	var first, last ast.Expr
	switch x := s.(type) {
	case *ast.IncDecStmt:
		if !isPlace(x.X) {
			return s
		}
		place = x.X
		first = x.X
		t := tmp()
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		last = &ast.BinaryExpr{X: t, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}
		return block(t, first, place, last)
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 || !isPlace(x.Lhs[0]) {
			return s
		}
		place = x.Lhs[0]
		switch x.Tok {
		case token.ADD_ASSIGN, token.SUB_ASSIGN:
			op := token.ADD
			if x.Tok == token.SUB_ASSIGN {
				op = token.SUB
			}
			t := tmp()
			return block(t, place, place, &ast.BinaryExpr{X: t, Op: op, Y: &ast.ParenExpr{X: x.Rhs[0]}})
		case token.ASSIGN:
			if c, ok := x.Rhs[0].(*ast.CallExpr); ok {
				if f, ok := c.Fun.(*ast.Ident); ok && f.Name == "append" {
					t := tmp()
					return block(t, c, place, t)
				}
			}
		}
	}
	return s
}

func block(t *ast.Ident, first, place, last ast.Expr) ast.Stmt {
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{first}},
		yield(),
		&ast.AssignStmt{Lhs: []ast.Expr{place}, Tok: token.ASSIGN, Rhs: []ast.Expr{last}},
	}}
}

func list(in []ast.Stmt) (out []ast.Stmt) {
	for _, s := range in {
		if _, empty := s.(*ast.EmptyStmt); !empty {
			out = append(out, yield())
		}
		out = append(out, split(s))
	}
	return
}

func main() {
	outdir := os.Args[1]
	mode, _ = strconv.Atoi(os.Args[2])
	for _, file := range os.Args[3:] {
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, nil, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		for _, imp := range f.Imports {
			if imp.Path.Value == `"sync"` {
				imp.Path.Value = strconv.Quote(shim)
				if imp.Name == nil {
					imp.Name = ast.NewIdent("sync")
				}
			}
		}
		changed := false
		if mode > 0 {
			ast.Inspect(f, func(n ast.Node) bool {
				switch b := n.(type) {
				case *ast.BlockStmt:
					if len(b.List) > 0 {
						if isClauses(b) {
							return true
						}
						b.List = list(b.List)
						changed = true
					}
				case *ast.CaseClause:
					b.Body = list(b.Body)
				case *ast.CommClause:
					b.Body = list(b.Body)
				}
				return true
			})
		}
		if changed {
			f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{
				&ast.ImportSpec{Name: ast.NewIdent("vsyncpkg"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(shim)}}}}}, f.Decls...)
		}
		out, err := os.Create(filepath.Join(outdir, filepath.Base(filepath.Dir(file))+"_"+filepath.Base(file)))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		if err := format.Node(out, token.NewFileSet(), f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		out.Close()
	}
}

func isClauses(b *ast.BlockStmt) bool {
	switch b.List[0].(type) {
	case *ast.CaseClause, *ast.CommClause:
		return true
	}
	return false
}

// refactor FILE KINDS OUT: writes FILE with behaviour-preserving edits applied everywhere:
// i: if a {x} else {y} becomes if !(a) {y} else {x};  w: for a; b; c {d} becomes a; for b {d; c};
// x: each function's body is moved to a helper that it calls;  c: a < b becomes b > a;
// n: statements that do nothing;  t: conditions and returned values go through temporaries.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

func main() {
	file, kinds, out := os.Args[1], os.Args[2], os.Args[3]
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, nil, 0)
	if err != nil {
		panic(err)
	}
	has := func(k string) bool { return strings.Contains(kinds, k) }
	var extra []ast.Decl
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok || fn.Body == nil || fn.Name.Name == "init" || fn.Name.Name == "main" {
			continue
		}
		if has("i") {
			ast.Inspect(fn.Body, func(n ast.Node) bool {
				if s, ok := n.(*ast.IfStmt); ok {
					if e, ok := s.Else.(*ast.BlockStmt); ok {
						s.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: s.Cond}}
						s.Body, s.Else = e, s.Body
					}
				}
				return true
			})
		}
		if has("c") {
			ast.Inspect(fn.Body, func(n ast.Node) bool {
				if b, ok := n.(*ast.BinaryExpr); ok && pure(b.X) && pure(b.Y) {
					switch b.Op {
					case token.LSS:
						b.Op, b.X, b.Y = token.GTR, b.Y, b.X
					case token.GTR:
						b.Op, b.X, b.Y = token.LSS, b.Y, b.X
					case token.LEQ:
						b.Op, b.X, b.Y = token.GEQ, b.Y, b.X
					case token.GEQ:
						b.Op, b.X, b.Y = token.LEQ, b.Y, b.X
					}
				}
				return true
			})
		}
		if has("t") {
			n := 0
			blocks(fn.Body, func(list []ast.Stmt) []ast.Stmt {
				var r []ast.Stmt
				for _, s := range list {
					if i, ok := s.(*ast.IfStmt); ok && i.Init == nil {
						n++
						id := ast.NewIdent(fmt.Sprintf("tmp%d", n))
						r = append(r, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{i.Cond}})
						i.Cond = ast.NewIdent(id.Name)
					}
					r = append(r, s)
				}
				return r
			})
		}
		if has("w") {
			blocks(fn.Body, func(list []ast.Stmt) []ast.Stmt {
				var r []ast.Stmt
				for _, s := range list {
					if l, ok := s.(*ast.ForStmt); ok && l.Post != nil && !continues(l.Body) {
						l.Body.List = append([]ast.Stmt{&ast.BlockStmt{List: l.Body.List}}, l.Post)
						l.Post = nil
						if l.Init != nil {
							i := l.Init
							l.Init = nil
							r = append(r, &ast.BlockStmt{List: []ast.Stmt{i, l}})
							continue
						}
					}
					r = append(r, s)
				}
				return r
			})
		}
		if has("n") {
			blocks(fn.Body, func(list []ast.Stmt) []ast.Stmt {
				nop := func() ast.Stmt {
					return &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}}
				}
				return append([]ast.Stmt{nop()}, list...)
			})
		}
		if has("x") {
			args, named, ok := arguments(fn)
			if !ok {
				continue
			}
			inner := &ast.FuncDecl{Recv: fn.Recv, Name: ast.NewIdent(fn.Name.Name + "Work"), Type: &ast.FuncType{Params: named, Results: fn.Type.Results}, Body: fn.Body}
			var target ast.Expr = inner.Name
			if fn.Recv != nil {
				if len(fn.Recv.List[0].Names) == 0 || fn.Recv.List[0].Names[0].Name == "_" {
					continue
				}
				target = &ast.SelectorExpr{X: ast.NewIdent(fn.Recv.List[0].Names[0].Name), Sel: inner.Name}
			}
			call := &ast.CallExpr{Fun: target, Args: args}
			if variadic(named) {
				call.Ellipsis = 1
			}
			var s ast.Stmt = &ast.ExprStmt{X: call}
			if fn.Type.Results != nil && len(fn.Type.Results.List) > 0 {
				s = &ast.ReturnStmt{Results: []ast.Expr{call}}
			}
			fn.Body = &ast.BlockStmt{List: []ast.Stmt{s}}
			extra = append(extra, inner)
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n", f.Name.Name)
	for _, d := range append(f.Decls, extra...) {
		b.WriteString("\n\n")
		if fn, ok := d.(*ast.FuncDecl); ok {
			fn.Doc = nil
		}
		if err := format.Node(&b, token.NewFileSet(), d); err != nil {
			panic(err)
		}
	}
	src, err := format.Source(b.Bytes())
	if err != nil {
		src = b.Bytes()
	}
	if err := os.WriteFile(out, src, 0644); err != nil {
		panic(err)
	}
}

func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.IndexExpr:
			ok = false
		}
		return ok
	})
	return ok
}

func continues(b *ast.BlockStmt) bool {
	found := false
	ast.Inspect(b, func(n ast.Node) bool {
		if s, ok := n.(*ast.BranchStmt); ok && (s.Tok == token.CONTINUE || s.Label != nil) {
			found = true
		}
		return true
	})
	return found
}

func blocks(b *ast.BlockStmt, f func([]ast.Stmt) []ast.Stmt) {
	var all []*ast.BlockStmt
	var cases []*ast.CaseClause
	skip := map[*ast.BlockStmt]bool{}
	ast.Inspect(b, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.SwitchStmt:
			skip[s.Body] = true
		case *ast.TypeSwitchStmt:
			skip[s.Body] = true
		case *ast.SelectStmt:
			skip[s.Body] = true
		case *ast.BlockStmt:
			if !skip[s] {
				all = append(all, s)
			}
		case *ast.CaseClause:
			cases = append(cases, s)
		}
		return true
	})
	for _, s := range all {
		s.List = f(s.List)
	}
	for _, s := range cases {
		s.Body = f(s.Body)
	}
}

func variadic(p *ast.FieldList) bool {
	if p == nil || len(p.List) == 0 {
		return false
	}
	_, ok := p.List[len(p.List)-1].Type.(*ast.Ellipsis)
	return ok
}

func arguments(fn *ast.FuncDecl) ([]ast.Expr, *ast.FieldList, bool) {
	var args []ast.Expr
	for _, p := range fn.Type.Params.List {
		if len(p.Names) == 0 {
			return nil, nil, false
		}
		for _, n := range p.Names {
			if n.Name == "_" {
				return nil, nil, false
			}
			args = append(args, ast.NewIdent(n.Name))
		}
	}
	return args, fn.Type.Params, true
}

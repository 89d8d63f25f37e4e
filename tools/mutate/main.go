// mutate FILE N OUT: writes the N-th mutant of FILE to OUT and describes it on stdout; without N and OUT, prints how many there are.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	pos  token.Pos
	desc string
	do   func()
}

func main() {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var ms []mut
	add := func(p token.Pos, d string, do func()) { ms = append(ms, mut{p, d, do}) }
	src := func(n ast.Node) string {
		var b bytes.Buffer
		printer.Fprint(&b, fs, n)
		return strings.ReplaceAll(b.String(), "\n", " ")
	}
	ops := map[token.Token][]token.Token{token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO, token.ADD}, token.QUO: {token.MUL}, token.LSS: {token.LEQ, token.GTR},
		token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR}, token.EQL: {token.NEQ, token.LEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.REM: {token.QUO}}
	asg := map[token.Token]token.Token{token.ADD_ASSIGN: token.SUB_ASSIGN, token.SUB_ASSIGN: token.ADD_ASSIGN, token.MUL_ASSIGN: token.QUO_ASSIGN}
	next := map[string]string{"X": "Y", "Y": "Z", "Z": "X", "next": "prev", "prev": "next", "max": "min", "min": "max", "pa": "pb", "pb": "pc", "pc": "pa", "ia": "ib", "ib": "ic", "ic": "id", "id": "ia"}
	block := func(l *[]ast.Stmt) {
		for i := range *l {
			i := i
			s := (*l)[i]
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt:
				add(s.Pos(), "delete: "+src(s), func() { (*l)[i] = &ast.EmptyStmt{} })
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					add(s.Pos(), "delete: "+src(s), func() { (*l)[i] = &ast.EmptyStmt{} })
				}
			case *ast.IfStmt:
				add(s.Pos(), "drop if: "+src(x.Cond), func() { (*l)[i] = &ast.EmptyStmt{} })
			}
			if i+1 < len(*l) {
				_, a := s.(*ast.AssignStmt)
				y, b := (*l)[i+1].(*ast.AssignStmt)
				if a && b && y.Tok != token.DEFINE {
					add(s.Pos(), "swap with the next: "+src(s), func() { (*l)[i], (*l)[i+1] = (*l)[i+1], (*l)[i] })
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.BinaryExpr:
			for _, t := range ops[x.Op] {
				t := t
				add(x.OpPos, src(x)+" -> "+t.String(), func() { x.Op = t })
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				add(x.OpPos, "only left of "+src(x), func() { x.Y = x.X; })
				add(x.OpPos, "only right of "+src(x), func() { x.X = x.Y })
			}
			if x.Op == token.SUB {
				add(x.OpPos, "swapped "+src(x), func() { x.X, x.Y = &ast.ParenExpr{X: x.Y}, &ast.ParenExpr{X: x.X} })
			}
		case *ast.UnaryExpr:
			if x.Op == token.SUB {
				add(x.Pos(), "+ for "+src(x), func() { x.Op = token.ADD })
			}
			if x.Op == token.NOT {
				add(x.Pos(), "no "+src(x), func() { x.X = &ast.ParenExpr{X: &ast.UnaryExpr{Op: token.NOT, X: x.X}} })
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, _ := strconv.Atoi(x.Value)
				for _, d := range []int{1, -1} {
					if v+d >= 0 {
						w := strconv.Itoa(v + d)
						add(x.Pos(), x.Value+" -> "+w, func() { x.Value = w })
					}
				}
			}
			if x.Kind == token.FLOAT {
				add(x.Pos(), x.Value+" doubled", func() { x.Value = "(2*" + x.Value + ")" })
			}
		case *ast.AssignStmt:
			if t, ok := asg[x.Tok]; ok {
				add(x.TokPos, src(x)+" -> "+t.String(), func() { x.Tok = t })
			}
		case *ast.IncDecStmt:
			add(x.Pos(), "reversed "+src(x), func() {
				if x.Tok == token.INC {
					x.Tok = token.DEC
				} else {
					x.Tok = token.INC
				}
			})
		case *ast.SelectorExpr:
			if w, ok := next[x.Sel.Name]; ok {
				if _, ok := x.X.(*ast.SelectorExpr); !ok || len(x.Sel.Name) == 1 {
					add(x.Sel.Pos(), src(x)+" -> ."+w, func() { x.Sel = ast.NewIdent(w) })
				}
			}
		case *ast.SliceExpr:
			if x.Low != nil {
				add(x.Pos(), "later "+src(x), func() { x.Low = &ast.BinaryExpr{X: x.Low, Op: token.ADD, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}} })
			}
			if x.High != nil {
				add(x.Pos(), "shorter "+src(x), func() { x.High = &ast.BinaryExpr{X: x.High, Op: token.SUB, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}} })
			}
		case *ast.CallExpr:
			for i := 0; i+1 < len(x.Args); i++ {
				i := i
				add(x.Args[i].Pos(), "swapped arguments of "+src(x), func() { x.Args[i], x.Args[i+1] = x.Args[i+1], x.Args[i] })
			}
		case *ast.BlockStmt:
			block(&x.List)
		case *ast.CaseClause:
			block(&x.Body)
		case *ast.ForStmt:
			if x.Cond != nil {
				add(x.Pos(), "never loop "+src(x.Cond), func() { x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LAND, Y: ast.NewIdent("false")} })
			}
		case *ast.IfStmt:
			add(x.Cond.Pos(), "always "+src(x.Cond), func() { x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LOR, Y: ast.NewIdent("true")} })
		}
		return true
	})
	if len(os.Args) < 4 {
		fmt.Println(len(ms))
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	p := fs.Position(ms[n].pos)
	fmt.Printf("%s:%d: %s\n", p.Filename[strings.LastIndex(p.Filename, "/")+1:], p.Line, ms[n].desc)
	ms[n].do()
	out, _ := os.Create(os.Args[3])
	if err := printer.Fprint(out, fs, f); err != nil {
		panic(err)
	}
	out.Close()
}

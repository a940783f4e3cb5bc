// Command mutate lists or writes mutants of a Go file (development tool: finds behaviour the checks do not look at).
//
//	mutate FILE        lists mutants, one per line
//	mutate FILE N OUT  writes mutant N to OUT
package main

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	pos  token.Pos
	fn   string
	desc string
	do   func()
}

func main() {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var ms []mutant
	fn := ""
	add := func(p token.Pos, desc string, do func()) { ms = append(ms, mutant{p, fn, desc, do}) }
	swap := map[token.Token][]token.Token{
		token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR},
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD}, token.QUO: {token.MUL},
		token.REM: {token.QUO}, token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.AND: {token.OR}, token.OR: {token.AND},
		token.LAND: {token.LOR}, token.LOR: {token.LAND},
	}
	block := func(list []ast.Stmt) {
		for i, s := range list {
			i, s := i, s
			switch st := s.(type) {
			case *ast.AssignStmt:
				if st.Tok == token.DEFINE {
					continue
				}
				add(s.Pos(), "delete assignment", func() { list[i] = &ast.EmptyStmt{} })
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt:
				add(s.Pos(), "delete statement", func() { list[i] = &ast.EmptyStmt{} })
			case *ast.IfStmt:
				add(s.Pos(), "delete if", func() { list[i] = &ast.EmptyStmt{} })
			}
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				continue
			}
			fn = "-"
		} else {
			fn = fd.Name.Name
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BinaryExpr:
				for _, t := range swap[x.Op] {
					t, o := t, x.Op
					add(x.OpPos, fmt.Sprintf("%s -> %s", o, t), func() { x.Op = t })
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						o := x.Value
						add(x.Pos(), o+" +1", func() { x.Value = strconv.FormatInt(v+1, 10) })
						if v > 0 {
							add(x.Pos(), o+" -1", func() { x.Value = strconv.FormatInt(v-1, 10) })
						}
					}
				}
				if x.Kind == token.STRING && len(x.Value) > 2 {
					o := x.Value
					add(x.Pos(), "string "+o, func() { x.Value = o[:len(o)-1] + "~" + o[len(o)-1:] })
				}
				if x.Kind == token.CHAR {
					o := x.Value
					add(x.Pos(), "char "+o, func() { x.Value = "'~'" })
				}
			case *ast.Ident:
				if x.Name == "true" || x.Name == "false" {
					o := x.Name
					add(x.Pos(), "flip "+o, func() { x.Name = map[string]string{"true": "false", "false": "true"}[o] })
				}
			case *ast.IfStmt:
				add(x.Pos(), "if true", func() {
					x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LOR, Y: ast.NewIdent("true")}
				})
				add(x.Pos(), "if false", func() {
					x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LAND, Y: ast.NewIdent("false")}
				})
				if x.Else != nil {
					add(x.Pos(), "drop else", func() { x.Else = nil })
				}
			case *ast.BlockStmt:
				block(x.List)
			case *ast.CaseClause:
				block(x.Body)
			case *ast.CommClause:
				block(x.Body)
			case *ast.AssignStmt:
				if x.Tok == token.ADD_ASSIGN {
					add(x.Pos(), "+= -> =", func() { x.Tok = token.ASSIGN })
				}
				if x.Tok == token.OR_ASSIGN {
					add(x.Pos(), "|= -> =", func() { x.Tok = token.ASSIGN })
				}
			case *ast.IncDecStmt:
				add(x.Pos(), "++ <-> --", func() {
					if x.Tok == token.INC {
						x.Tok = token.DEC
					} else {
						x.Tok = token.INC
					}
				})
			}
			return true
		})
	}
	if len(os.Args) == 2 {
		for i, m := range ms {
			fmt.Printf("%d\t%d\t%s\t%s\n", i, fset.Position(m.pos).Line, m.fn, m.desc)
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	ms[n].do()
	o, err := os.Create(os.Args[3])
	if err != nil {
		panic(err)
	}
	if err := format.Node(o, fset, f); err != nil {
		panic(err)
	}
	o.Close()
}

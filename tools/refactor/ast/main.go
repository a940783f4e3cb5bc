// ast DIR T..: rewrites every function below DIR without changing what it does. Development tool.
//
//	ifelse   if c {A} else {B}  ->  if !(c) {B} else {A};  if c {A} -> if !(c) {} else {A}
//	for      for i := a; c; p {B}  ->  for i := a; ; p { if !(c) { break }; B }
//	while    for ; c; {B}  ->  loop with labelled break over a flag
//	extract  func f(a) r {B}  ->  func f(a) r { return fImpl(a) }; func fImpl(a) r {B}
//	switch   switch x { case a: A .. }  ->  if chain
//	and      if a && b {A}  ->  if a { if b {A} }
//	range    for i, v := range s {B} over a slice  ->  for i := 0; i < len(s); i++ { v := s[i]; B }
//	ret      return e1, e2  ->  t1, t2 := e1, e2; return t1, t2
//	args     f(g(x))  ->  t := g(x); f(t)   (expression statements and single assignments)
//	opassign x += y  ->  x = x + y;  i++ -> i += 1
//	closure  func f(a) (r) {B}  ->  func f(a) (r) { return func() (r) {B}() }
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

var fset = token.NewFileSet()
var info *types.Info
var n int

func id(s string) *ast.Ident { return &ast.Ident{Name: s} }
func fresh() *ast.Ident      { n++; return id(fmt.Sprintf("rw%d", n)) }
func not(e ast.Expr) ast.Expr {
	return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}}
}

// has reports whether the statement contains a node accepted by f outside nested function literals (and, for
// branch statements, outside what they could bind to).
func has(s ast.Node, f func(ast.Node) bool) bool {
	r := false
	ast.Inspect(s, func(m ast.Node) bool {
		if m == nil {
			return false
		}
		if _, ok := m.(*ast.FuncLit); ok && m != s {
			return false
		}
		if f(m) {
			r = true
		}
		return true
	})
	return r
}

func branch(tok token.Token) func(ast.Node) bool {
	return func(m ast.Node) bool {
		b, ok := m.(*ast.BranchStmt)
		return ok && (tok == token.ILLEGAL || b.Tok == tok)
	}
}

type rw func(s ast.Stmt) []ast.Stmt

// walk rewrites statement lists bottom up.
func walkList(l []ast.Stmt, f rw) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		walkStmt(s, f)
		out = append(out, f(s)...)
	}
	return out
}

func walkStmt(s ast.Stmt, f rw) {
	switch t := s.(type) {
	case *ast.BlockStmt:
		t.List = walkList(t.List, f)
	case *ast.IfStmt:
		t.Body.List = walkList(t.Body.List, f)
		if t.Else != nil {
			if e, ok := t.Else.(*ast.IfStmt); ok {
				walkStmt(e, f)
				r := f(e)
				if len(r) != 1 || r[0] != e {
					t.Else = &ast.BlockStmt{List: r}
				}
			} else {
				walkStmt(t.Else, f)
			}
		}
	case *ast.ForStmt:
		t.Body.List = walkList(t.Body.List, f)
	case *ast.RangeStmt:
		t.Body.List = walkList(t.Body.List, f)
	case *ast.SwitchStmt:
		for _, c := range t.Body.List {
			c.(*ast.CaseClause).Body = walkList(c.(*ast.CaseClause).Body, f)
		}
	case *ast.TypeSwitchStmt:
		for _, c := range t.Body.List {
			c.(*ast.CaseClause).Body = walkList(c.(*ast.CaseClause).Body, f)
		}
	case *ast.SelectStmt:
		for _, c := range t.Body.List {
			c.(*ast.CommClause).Body = walkList(c.(*ast.CommClause).Body, f)
		}
	case *ast.LabeledStmt:
		walkStmt(t.Stmt, f)
	}
	// function literals
	ast.Inspect(s, func(m ast.Node) bool {
		if fl, ok := m.(*ast.FuncLit); ok {
			fl.Body.List = walkList(fl.Body.List, f)
			return false
		}
		if st, ok := m.(ast.Stmt); ok && st != s {
			return false
		}
		return true
	})
}

func terminates(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch t := b.List[len(b.List)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return t.Tok != token.FALLTHROUGH
	}
	return false
}

var rules = map[string]rw{
	"ifelse": func(s ast.Stmt) []ast.Stmt {
		t, ok := s.(*ast.IfStmt)
		if !ok {
			return []ast.Stmt{s}
		}
		if t.Else == nil {
			return []ast.Stmt{s}
		}
		els, ok := t.Else.(*ast.BlockStmt)
		if !ok {
			els = &ast.BlockStmt{List: []ast.Stmt{t.Else}}
		}
		t.Cond, t.Body, t.Else = not(t.Cond), els, t.Body
		return []ast.Stmt{t}
	},
	"for": func(s ast.Stmt) []ast.Stmt {
		t, ok := s.(*ast.ForStmt)
		if !ok || t.Cond == nil {
			return []ast.Stmt{s}
		}
		t.Body.List = append([]ast.Stmt{&ast.IfStmt{Cond: not(t.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, t.Body.List...)
		t.Cond = nil
		return []ast.Stmt{t}
	},
	"switch": func(s ast.Stmt) []ast.Stmt {
		t, ok := s.(*ast.SwitchStmt)
		if !ok || has(t.Body, branch(token.BREAK)) || has(t.Body, branch(token.FALLTHROUGH)) {
			return []ast.Stmt{s}
		}
		var pre []ast.Stmt
		if t.Init != nil {
			pre = append(pre, t.Init)
		}
		var tag ast.Expr
		if t.Tag != nil {
			v := fresh()
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{t.Tag}})
			tag = v
		}
		var def *ast.BlockStmt
		var chain []*ast.IfStmt
		for _, c := range t.Body.List {
			cc := c.(*ast.CaseClause)
			b := &ast.BlockStmt{List: cc.Body}
			if cc.List == nil {
				def = b
				continue
			}
			var cond ast.Expr
			for _, e := range cc.List {
				var k ast.Expr = &ast.ParenExpr{X: e}
				if tag != nil {
					k = &ast.BinaryExpr{X: tag, Op: token.EQL, Y: &ast.ParenExpr{X: e}}
				}
				if cond == nil {
					cond = k
				} else {
					cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: k}
				}
			}
			chain = append(chain, &ast.IfStmt{Cond: cond, Body: b})
		}
		if len(chain) == 0 {
			return []ast.Stmt{s}
		}
		for i := 0; i+1 < len(chain); i++ {
			chain[i].Else = chain[i+1]
		}
		if def != nil {
			chain[len(chain)-1].Else = def
		}
		return []ast.Stmt{&ast.BlockStmt{List: append(pre, chain[0])}}
	},
	"and": func(s ast.Stmt) []ast.Stmt {
		t, ok := s.(*ast.IfStmt)
		if !ok {
			return []ast.Stmt{s}
		}
		b, ok := t.Cond.(*ast.BinaryExpr)
		if ok && b.Op == token.LAND && t.Else == nil {
			t.Cond = b.X
			t.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: t.Body}}}
		} else if ok && b.Op == token.LOR && t.Else == nil && t.Init == nil && terminates(t.Body) {
			return []ast.Stmt{&ast.IfStmt{Cond: b.X, Body: t.Body}, &ast.IfStmt{Cond: b.Y, Body: t.Body}}
		}
		return []ast.Stmt{t}
	},
	"range": func(s ast.Stmt) []ast.Stmt {
		t, ok := s.(*ast.RangeStmt)
		if !ok || t.Tok != token.DEFINE || t.Key == nil {
			return []ast.Stmt{s}
		}
		if _, ok := info.TypeOf(t.X).Underlying().(*types.Slice); !ok {
			return []ast.Stmt{s}
		}
		seq := fresh()
		k := t.Key.(*ast.Ident)
		if k.Name == "_" {
			k = fresh()
		}
		var pre []ast.Stmt
		if v, ok := t.Value.(*ast.Ident); ok && v.Name != "_" {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: seq, Index: k}}})
		}
		t.Body.List = append(pre, t.Body.List...)
		return []ast.Stmt{&ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{seq, k}, Tok: token.DEFINE, Rhs: []ast.Expr{t.X, &ast.BasicLit{Kind: token.INT, Value: "0"}}},
			Cond: &ast.BinaryExpr{X: k, Op: token.LSS, Y: &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{seq}}},
			Post: &ast.IncDecStmt{X: k, Tok: token.INC}, Body: t.Body}}
	},
	"ret": func(s ast.Stmt) []ast.Stmt {
		t, ok := s.(*ast.ReturnStmt)
		if !ok || len(t.Results) == 0 {
			return []ast.Stmt{s}
		}
		var l, r []ast.Expr
		for i, e := range t.Results {
			tv, ok := info.Types[e]
			if !ok || tv.Value != nil || tv.IsNil() {
				continue
			}
			if _, tuple := tv.Type.(*types.Tuple); tuple {
				return []ast.Stmt{s}
			}
			if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				continue
			}
			v := fresh()
			l, r = append(l, v), append(r, e)
			t.Results[i] = v
		}
		if l == nil {
			return []ast.Stmt{s}
		}
		return []ast.Stmt{&ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: r}, t}
	},
	"args": func(s ast.Stmt) []ast.Stmt {
		var call *ast.CallExpr
		switch t := s.(type) {
		case *ast.ExprStmt:
			call, _ = t.X.(*ast.CallExpr)
		case *ast.AssignStmt:
			if len(t.Rhs) == 1 {
				call, _ = t.Rhs[0].(*ast.CallExpr)
			}
		}
		if call == nil {
			return []ast.Stmt{s}
		}
		if tv := info.Types[call.Fun]; tv.IsType() || tv.IsBuiltin() {
			return []ast.Stmt{s}
		}
		var pre []ast.Stmt
		for i, e := range call.Args {
			tv := info.Types[e]
			if tv.Value != nil || tv.IsNil() || tv.Type == nil {
				continue
			}
			if _, ok := e.(*ast.CallExpr); !ok {
				if _, ok := e.(*ast.BinaryExpr); !ok {
					continue
				}
			}
			if _, tuple := tv.Type.(*types.Tuple); tuple {
				continue
			}
			if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				continue
			}
			v := fresh()
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
			call.Args[i] = v
		}
		return append(pre, s)
	},
	"opassign": func(s ast.Stmt) []ast.Stmt {
		switch t := s.(type) {
		case *ast.IncDecStmt:
			op := token.ADD_ASSIGN
			if t.Tok == token.DEC {
				op = token.SUB_ASSIGN
			}
			return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{t.X}, Tok: op, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "1"}}}}
		case *ast.AssignStmt:
			if t.Tok > token.ASSIGN || t.Tok < token.ADD_ASSIGN || t.Tok > token.AND_NOT_ASSIGN {
				if t.Tok < token.ADD_ASSIGN || t.Tok > token.AND_NOT_ASSIGN {
					return []ast.Stmt{s}
				}
			}
			if has(t.Lhs[0], func(m ast.Node) bool { _, ok := m.(*ast.CallExpr); return ok }) {
				return []ast.Stmt{s}
			}
			op := t.Tok - token.ADD_ASSIGN + token.ADD
			return []ast.Stmt{&ast.AssignStmt{Lhs: t.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: t.Lhs[0], Op: op, Y: &ast.ParenExpr{X: t.Rhs[0]}}}}}
		}
		return []ast.Stmt{s}
	},
}

// wrap moves bodies of functions.
func wrap(kind string, f *ast.File) {
	var out []ast.Decl
	for _, d := range f.Decls {
		out = append(out, d)
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || fd.Name.Name == "init" || fd.Name.Name == "main" {
			continue
		}
		if fd.Recv != nil && len(fd.Recv.List[0].Names) == 0 {
			continue
		}
		if has(fd.Body, func(m ast.Node) bool {
			c, ok := m.(*ast.CallExpr)
			if !ok {
				return false
			}
			i, ok := c.Fun.(*ast.Ident)
			return ok && i.Name == "recover"
		}) {
			continue
		}
		if kind == "closure" {
			lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: fd.Type.Results}, Body: fd.Body}
			call := &ast.CallExpr{Fun: lit}
			if fd.Type.Results == nil {
				fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}
			} else {
				fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call}}}}
			}
			continue
		}
		impl := &ast.FuncDecl{Recv: fd.Recv, Name: id("rwImpl" + fd.Name.Name), Type: fd.Type, Body: fd.Body}
		var args []ast.Expr
		bad, variadic := false, false
		for _, p := range fd.Type.Params.List {
			if len(p.Names) == 0 {
				bad = true
			}
			for _, nm := range p.Names {
				if nm.Name == "_" {
					bad = true
				}
				args = append(args, nm)
			}
			if _, ok := p.Type.(*ast.Ellipsis); ok {
				variadic = true
			}
		}
		if bad {
			continue
		}
		var fun ast.Expr = impl.Name
		if fd.Recv != nil {
			fun = &ast.SelectorExpr{X: fd.Recv.List[0].Names[0], Sel: impl.Name}
		} else if fd.Type.TypeParams != nil {
			continue
		}
		call := &ast.CallExpr{Fun: fun, Args: args}
		if variadic {
			call.Ellipsis = 1
		}
		b := &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}
		if fd.Type.Results != nil {
			b.List = []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call}}}
		}
		fd.Body = b
		out = append(out, impl)
	}
	f.Decls = out
}

// rename renames what a package does not export: functions, methods, types, variables, constants and fields.
func rename(f *ast.File) {
	ast.Inspect(f, func(m ast.Node) bool {
		i, ok := m.(*ast.Ident)
		if !ok || i.IsExported() || i.Name == "init" || i.Name == "main" || i.Name == "_" {
			return true
		}
		o := info.Defs[i]
		if o == nil {
			o = info.Uses[i]
		}
		if o == nil || o.Pkg() == nil || !strings.HasPrefix(o.Pkg().Path(), "net/") && !strings.HasPrefix(o.Pkg().Path(), "cmd/") {
			return true
		}
		if strings.Count(o.Pkg().Path(), "/") != 1 || o.Pkg().Path() == "net/url" || o.Pkg().Path() == "net/http" || o.Pkg().Path() == "net/textproto" {
			return true
		}
		v, isVar := o.(*types.Var)
		if o.Parent() == o.Pkg().Scope() || isVar && v.IsField() {
			i.Name = "rw" + strings.ToUpper(i.Name[:1]) + i.Name[1:]
		} else if fn, ok := o.(*types.Func); ok && fn.Type().(*types.Signature).Recv() != nil {
			i.Name = "rw" + strings.ToUpper(i.Name[:1]) + i.Name[1:]
		}
		return true
	})
}

func main() {
	dir := os.Args[1]
	os.Chdir(dir)
	dirs := map[string][]*ast.File{}
	names := map[*ast.File]string{}
	filepath.Walk(".", func(p string, fi os.FileInfo, err error) error {
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") && !strings.HasPrefix(p, ".git") {
			f, err := parser.ParseFile(fset, p, nil, 0)
			if err != nil {
				panic(err)
			}
			dirs[filepath.Dir(p)] = append(dirs[filepath.Dir(p)], f)
			names[f] = p
		}
		return nil
	})
	imp := importer.ForCompiler(fset, "source", nil)
	for d, fs := range dirs {
		info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
		cfg := types.Config{Importer: imp, Error: func(err error) { fmt.Fprintln(os.Stderr, "types:", err) }}
		cfg.Check(d, fset, fs, info)
		for _, f := range fs {
			f.Comments = nil
			for _, t := range os.Args[2:] {
				if t == "rename" {
					rename(f)
					continue
				}
				if t == "extract" || t == "closure" {
					wrap(t, f)
					continue
				}
				for _, dc := range f.Decls {
					if fd, ok := dc.(*ast.FuncDecl); ok && fd.Body != nil {
						fd.Body.List = walkList(fd.Body.List, rules[t])
					}
				}
			}
			var b bytes.Buffer
			if err := printer.Fprint(&b, fset, f); err != nil {
				panic(err)
			}
			os.WriteFile(names[f], b.Bytes(), 0644)
		}
	}
}

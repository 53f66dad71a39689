package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"strings"
)

// Functions that call themselves in return statements only are rewritten to loops before anything is analysed,
// so that it does not matter which of the two was written.

func (p *loader) parseFile(fset *token.FileSet, name string, src []byte) (*ast.File, error) {
	f, err := parser.ParseFile(fset, name, src, parser.AllErrors|parser.ParseComments)
	if err == nil && strings.HasPrefix(name, p.dir+"/") {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				tailToLoop(fd)
			}
		}
	}
	return f, err
}

type loader struct{ dir string }

func tailToLoop(fd *ast.FuncDecl) {
	var recv string
	if fd.Recv != nil {
		if len(fd.Recv.List) != 1 || len(fd.Recv.List[0].Names) != 1 {
			return
		}
		recv = fd.Recv.List[0].Names[0].Name
	}
	if fd.Type.TypeParams != nil || fd.Type.Results == nil {
		return
	}
	for _, r := range fd.Type.Results.List {
		if len(r.Names) > 0 {
			return
		}
	}
	var params []string
	for _, q := range fd.Type.Params.List {
		if _, ok := q.Type.(*ast.Ellipsis); ok || len(q.Names) == 0 {
			return
		}
		for _, n := range q.Names {
			params = append(params, n.Name)
		}
	}
	own := map[string]bool{recv: true, fd.Name.Name: true}
	for _, q := range params {
		own[q] = true
	}
	self := func(c *ast.CallExpr) bool {
		switch f := c.Fun.(type) {
		case *ast.Ident:
			return fd.Recv == nil && f.Name == fd.Name.Name
		case *ast.SelectorExpr:
			x, ok := f.X.(*ast.Ident)
			return ok && recv != "" && recv != "_" && x.Name == recv && f.Sel.Name == fd.Name.Name
		}
		return false
	}
	calls, tails := 0, 0
	bad := false
	var stack []ast.Node
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		stack = append(stack, n)
		switch x := n.(type) {
		case *ast.FuncLit, *ast.DeferStmt, *ast.GoStmt, *ast.LabeledStmt:
			bad = true
		case *ast.UnaryExpr:
			if id, ok := x.X.(*ast.Ident); ok && x.Op == token.AND && own[id.Name] {
				bad = true
			}
		case *ast.CallExpr:
			if self(x) && len(x.Args) == len(params) {
				calls++
			} else if self(x) {
				bad = true
			}
		case *ast.ReturnStmt:
			if len(x.Results) == 1 {
				if c, ok := x.Results[0].(*ast.CallExpr); ok && self(c) {
					tails++
				}
			}
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				// the name of the function or of the receiver stands for something else
				if id, ok := l.(*ast.Ident); ok && (id.Name == recv || id.Name == fd.Name.Name) {
					bad = true
				}
				// parameters hidden by variables of the same name
				if id, ok := l.(*ast.Ident); ok && x.Tok == token.DEFINE && own[id.Name] {
					if _, sw := stack[len(stack)-2].(*ast.TypeSwitchStmt); !sw {
						bad = true
					}
				}
			}
		case *ast.ValueSpec:
			for _, id := range x.Names {
				if own[id.Name] {
					bad = true
				}
			}
		case *ast.RangeStmt:
			for _, e := range []ast.Expr{x.Key, x.Value} {
				if id, ok := e.(*ast.Ident); ok && x.Tok == token.DEFINE && own[id.Name] {
					bad = true
				}
			}
		}
		return true
	})
	if bad || calls == 0 || calls != tails {
		return
	}
	// a type switch may hide a parameter: then next values go through variables of their own
	const label = "again·"
	pos := fd.Body.Lbrace
	ident := func(n string) *ast.Ident { return &ast.Ident{NamePos: pos, Name: n} }
	next := func(n string) string { return "next·" + n }
	var rewrite func(list []ast.Stmt)
	var one func(s ast.Stmt) ast.Stmt
	one = func(s ast.Stmt) ast.Stmt {
		switch x := s.(type) {
		case *ast.ReturnStmt:
			if len(x.Results) == 1 {
				if c, ok := x.Results[0].(*ast.CallExpr); ok && self(c) {
					b := &ast.BlockStmt{Lbrace: x.Pos(), Rbrace: x.End()}
					if len(params) > 0 {
						as := &ast.AssignStmt{TokPos: c.Lparen, Tok: token.ASSIGN}
						for i, q := range params {
							as.Lhs = append(as.Lhs, &ast.Ident{NamePos: x.Pos(), Name: next(q)})
							as.Rhs = append(as.Rhs, c.Args[i])
						}
						b.List = append(b.List, as)
					}
					b.List = append(b.List, &ast.BranchStmt{TokPos: x.Pos(), Tok: token.CONTINUE, Label: &ast.Ident{NamePos: x.Pos(), Name: label}})
					return b
				}
			}
		case *ast.BlockStmt:
			rewrite(x.List)
		case *ast.IfStmt:
			rewrite(x.Body.List)
			if x.Else != nil {
				x.Else = one(x.Else)
			}
		case *ast.ForStmt:
			rewrite(x.Body.List)
		case *ast.RangeStmt:
			rewrite(x.Body.List)
		case *ast.SwitchStmt:
			rewrite(x.Body.List)
		case *ast.TypeSwitchStmt:
			rewrite(x.Body.List)
		case *ast.CaseClause:
			rewrite(x.Body)
		}
		return s
	}
	rewrite = func(list []ast.Stmt) {
		for i := range list {
			list[i] = one(list[i])
		}
	}
	rewrite(fd.Body.List)
	// func f(next·p ...) { again·: for { p := next·p; _ = p; body } }
	body := &ast.BlockStmt{Lbrace: pos, Rbrace: fd.Body.Rbrace}
	for _, q := range fd.Type.Params.List {
		for _, n := range q.Names {
			if n.Name == "_" {
				continue
			}
			body.List = append(body.List, &ast.AssignStmt{Lhs: []ast.Expr{&ast.Ident{NamePos: n.Pos(), Name: n.Name}}, TokPos: pos, Tok: token.DEFINE, Rhs: []ast.Expr{ident(next(n.Name))}},
				&ast.AssignStmt{Lhs: []ast.Expr{ident("_")}, TokPos: pos, Tok: token.ASSIGN, Rhs: []ast.Expr{ident(n.Name)}})
		}
	}
	k := 0
	for _, q := range fd.Type.Params.List {
		for _, n := range q.Names {
			n.Name = next(params[k])
			k++
		}
	}
	body.List = append(body.List, fd.Body.List...)
	fd.Body = &ast.BlockStmt{Lbrace: pos, Rbrace: fd.Body.Rbrace, List: []ast.Stmt{
		&ast.LabeledStmt{Label: ident(label), Colon: pos, Stmt: &ast.ForStmt{For: pos, Body: body}}}}
}

// Command mutate lists small syntactic changes of Go files as JSON lines.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

type mutant struct {
	File     string
	From, To int
	New      string
	Line     int
	What     string
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[2:] {
		src, err := os.ReadFile(filepath.Join(root, f))
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		tree, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		add := func(from, to token.Pos, s, what string) {
			enc.Encode(mutant{f, off(from), off(to), s, fset.PositionFor(from, false).Line, what})
		}
		rep := func(n ast.Node, s, what string) { add(n.Pos(), n.End(), s, what) }
		drop := func(s ast.Stmt) {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
				rep(s, "", "statement dropped")
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					rep(s, "", "statement dropped")
				}
			}
		}
		stmts := func(l []ast.Stmt) {
			for i, s := range l {
				drop(s)
				if i > 0 {
					a, b := l[i-1], s
					add(a.Pos(), b.End(), text(b)+"\n"+text(a), "statements swapped")
				}
			}
		}
		exprs := func(l []ast.Expr, what string) {
			for i := range l {
				if i > 0 {
					add(l[i-1].Pos(), l[i].End(), text(l[i])+", "+text(l[i-1]), what+" swapped")
				}
				if len(l) == 1 {
					continue
				}
				if i > 0 {
					add(l[i-1].End(), l[i].End(), "", what+" dropped")
				} else {
					add(l[0].Pos(), l[1].Pos(), "", what+" dropped")
				}
			}
		}
		ast.Inspect(tree, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.Field:
				return false
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
				if n.List != nil {
					rep(n, "", "case dropped")
					exprs(n.List, "case value")
				} else if len(n.Body) > 0 {
					rep(n, "", "default dropped")
				}
			case *ast.IfStmt:
				rep(n.Cond, "!("+text(n.Cond)+")", "condition negated")
				rep(n.Cond, "("+text(n.Cond)+") || true", "condition true")
				rep(n.Cond, "("+text(n.Cond)+") && false", "condition false")
				if n.Else != nil {
					add(n.Body.End(), n.Else.End(), "", "else dropped")
				}
			case *ast.ForStmt:
				if n.Cond != nil {
					rep(n.Cond, "("+text(n.Cond)+") && false", "loop never run")
				}
			case *ast.RangeStmt:
				rep(n.X, text(n.X)+"[1:]", "first left out")
				rep(n.X, text(n.X)+"[:1]", "first only")
				add(n.Body.Rbrace, n.Body.Rbrace, "break\n", "loop run once")
			case *ast.BinaryExpr:
				for _, o := range map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">", ">="}, token.GTR: {">=", "<"}, token.LEQ: {"<"}, token.GEQ: {">"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}}[n.Op] {
					add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o, "operator "+n.Op.String()+" to "+o)
				}
				if n.Op == token.LAND || n.Op == token.LOR || n.Op == token.ADD {
					rep(n, text(n.X), "right operand dropped")
					rep(n, text(n.Y), "left operand dropped")
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT || n.Op == token.SUB {
					rep(n, text(n.X), "operator dropped")
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						rep(n, fmt.Sprint(v+1), "number plus one")
						rep(n, fmt.Sprint(v-1), "number minus one")
					}
				case token.STRING:
					if v, err := strconv.Unquote(n.Value); err == nil {
						rep(n, strconv.Quote(v+"x"), "text longer")
						if len(v) > 0 {
							rep(n, `""`, "text empty")
							rep(n, strconv.Quote(v[1:]), "text without its first byte")
						}
					}
				case token.CHAR:
					rep(n, "'~'", "character changed")
				}
			case *ast.Ident:
				switch n.Name {
				case "true":
					rep(n, "false", "true to false")
				case "false":
					rep(n, "true", "false to true")
				}
			case *ast.BranchStmt:
				if n.Tok == token.BREAK {
					rep(n, "continue", "break to continue")
				} else if n.Tok == token.CONTINUE {
					rep(n, "break", "continue to break")
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					if t := text(r); t != "nil" && t != "false" && t != "true" {
						rep(r, "nil", "nil returned")
						rep(r, `""`, "empty text returned")
						rep(r, "0", "zero returned")
						rep(r, "false", "false returned")
						rep(r, "true", "true returned")
					}
				}
				exprs(n.Results, "result")
			case *ast.CallExpr:
				exprs(n.Args, "argument")
				if len(n.Args) > 0 {
					rep(n, text(n.Args[0]), "call replaced by its first argument")
				}
				if s, ok := n.Fun.(*ast.SelectorExpr); ok {
					rep(n, text(s.X), "call replaced by its receiver")
				}
			case *ast.CompositeLit:
				exprs(n.Elts, "element")
				if len(n.Elts) == 1 {
					rep(n.Elts[0], "", "element dropped")
				}
			case *ast.SliceExpr:
				rep(n, text(n.X), "slice dropped")
			case *ast.AssignStmt:
				if n.Tok == token.ADD_ASSIGN {
					add(n.TokPos, n.TokPos+2, "=", "+= to =")
				}
				for _, r := range n.Rhs {
					if t := text(r); t != "nil" && n.Tok == token.ASSIGN {
						rep(r, "nil", "nil assigned")
						rep(r, "false", "false assigned")
						rep(r, "true", "true assigned")
					}
				}
			}
			return true
		})
	}
}

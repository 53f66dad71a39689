package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/scanner"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// The shipped parser is the one the parser generator makes of the grammar (C10).

func init() {
	register("parser", "C01 C02 C03 C10", "The parser generator (goyacc, vendored) is run on the grammar file, and each declaration of what it gives is compared with the shipped one: by its tokens, or else constants by value, tables element by element, functions by bisimulation of their SSA form, and actions by the terms they compute.", runParser)
}

// tokensOf is a piece of source without comments and layout.
func tokensOf(src []byte) string {
	var s scanner.Scanner
	fs := token.NewFileSet()
	s.Init(fs.AddFile("", fs.Base(), len(src)), src, nil, 0)
	var b strings.Builder
	for {
		_, t, lit := s.Scan()
		if t == token.EOF {
			return b.String()
		}
		if t == token.SEMICOLON {
			lit = ""
		}
		b.WriteString(t.String())
		b.WriteByte(' ')
		b.WriteString(lit)
		b.WriteByte('\n')
	}
}

type yaccDecl struct {
	kind   string // const, var, type, func
	name   string // recv.name for methods
	tokens string
	pos    token.Pos
}

// declsOf lists the declarations of a file.
func declsOf(src []byte) ([]yaccDecl, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "y.go", src, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	text := func(n ast.Node) string {
		return tokensOf(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset])
	}
	var ds []yaccDecl
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			n := x.Name.Name
			if x.Recv != nil && len(x.Recv.List) == 1 {
				t := x.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				if id, ok := t.(*ast.Ident); ok {
					n = id.Name + "." + n
				}
			}
			ds = append(ds, yaccDecl{kind: "func", name: n, tokens: text(x), pos: x.Pos()})
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				continue
			}
			for _, sp := range x.Specs {
				switch y := sp.(type) {
				case *ast.TypeSpec:
					ds = append(ds, yaccDecl{kind: "type", name: y.Name.Name, tokens: text(y), pos: y.Pos()})
				case *ast.ValueSpec:
					for _, n := range y.Names {
						t := text(y)
						if len(y.Values) == 0 && x.Tok == token.CONST {
							t = "" // value of another specification
						}
						ds = append(ds, yaccDecl{kind: x.Tok.String(), name: n.Name, tokens: t, pos: y.Pos()})
					}
				}
			}
		}
	}
	return ds, nil
}

func runParser(pr *Program, r *Report) {
	const P, ALL = "C10", "C01 C02 C03 C10"
	m := gramModelOf(pr)
	if m.err != nil {
		r.check(ALL, "parser", "asn1.y", "understood", token.NoPos, false, "the grammar or the parser can not be analysed: %v", m.err)
		return
	}
	r.used(P, m.d.fn, len(m.acts))
	// actions take as many values as their productions have symbols
	for _, p := range m.g.Productions {
		a := m.acts[p.No]
		r.check("C03 C10", "slice", p.Left, ruleText(p.Left, p.Right), token.NoPos, a.slice < 0 || a.slice == len(p.Right), "the action takes %d values, the production has %d symbols", a.slice, len(p.Right))
	}
	file := filepath.Join(pr.Dir, "y.go")
	shipped, err := os.ReadFile(file)
	if err != nil {
		shipped = nil
	}
	have := map[string]string{}
	if ds, err := declsOf(shipped); err == nil {
		for _, d := range ds {
			have[d.kind+" "+d.name] = d.tokens
		}
	}
	want, err := declsOf([]byte(m.g.Source))
	if !r.check(ALL, "parser", "goyacc", "generates a Go file", token.NoPos, err == nil, "%v", err) {
		return
	}
	var differ []yaccDecl
	for _, d := range want {
		if t, ok := have[d.kind+" "+d.name]; ok && t == d.tokens && t != "" {
			r.check(ALL, d.kind, d.name, "is what the parser generator makes of the grammar", token.NoPos, true, "")
			continue
		}
		differ = append(differ, d)
	}
	if len(differ) == 0 {
		return
	}
	p2, err := loadWith(map[string][]byte{file: []byte(m.g.Source)})
	if err != nil {
		// what is declared in y.go for other files: generate into a file of its own
		r.check(ALL, "parser", "y.go", "is what the parser generator makes of the grammar", token.NoPos, false, "the shipped parser differs, and the generated one does not fit the package: %v", err)
		return
	}
	for _, d := range differ {
		why := m.sameDecl(pr, p2, d)
		props := ALL
		if d.name == "yyParserImpl.Parse" && why != "" && !strings.HasPrefix(why, "the automaton:") {
			props = P // actions have rules of their own
		}
		r.check(props, d.kind, d.name, "is what the parser generator makes of the grammar", declPos(pr, d), why == "", "the shipped parser differs from the grammar file: %s", why)
	}
}

func declPos(pr *Program, d yaccDecl) token.Pos {
	if d.kind == "func" {
		if i := strings.IndexByte(d.name, '.'); i > 0 {
			if f := pr.method("", d.name[:i], d.name[i+1:]); f != nil {
				return f.Pos()
			}
			return token.NoPos
		}
	}
	if o := pr.pkg("").Pkg.Scope().Lookup(d.name); o != nil {
		return o.Pos()
	}
	return token.NoPos
}

// sameDecl compares a declaration of the shipped parser with the generated one.
func (m *gramModel) sameDecl(pr, p2 *Program, d yaccDecl) string {
	s1, s2 := pr.pkg(""), p2.pkg("")
	if s1 == nil || s2 == nil {
		return "no package"
	}
	o1, o2 := s1.Pkg.Scope().Lookup(d.name), s2.Pkg.Scope().Lookup(d.name)
	if d.kind != "func" && (o1 == nil || o2 == nil) {
		return d.name + " is not declared"
	}
	switch d.kind {
	case "const":
		c1, ok1 := o1.(*types.Const)
		c2, ok2 := o2.(*types.Const)
		if !ok1 || !ok2 || !constant.Compare(c1.Val(), token.EQL, c2.Val()) {
			return "another value"
		}
		return ""
	case "type":
		u1, u2 := o1.Type().Underlying(), o2.Type().Underlying()
		if t1, ok := u1.(*types.Struct); ok {
			t2, ok := u2.(*types.Struct)
			if !ok {
				return "another type"
			}
			fields := map[string]string{}
			for i := 0; i < t1.NumFields(); i++ {
				fields[t1.Field(i).Name()] = typeStr(t1.Field(i).Type())
			}
			for i := 0; i < t2.NumFields(); i++ {
				if f := t2.Field(i); fields[f.Name()] != typeStr(f.Type()) {
					return "field " + f.Name()
				}
			}
			return ""
		}
		if typeStr(u1) != typeStr(u2) {
			return "another type"
		}
		return ""
	case "var":
		g1, g2 := s1.Var(d.name), s2.Var(d.name)
		if g1 != nil && g2 != nil && len(pr.gwrites[g1]) > len(p2.gwrites[g2]) {
			return "it is changed while parsing"
		}
		a, err1 := tableOf(pr, d.name)
		b, err2 := tableOf(p2, d.name)
		if err1 != nil || err2 != nil {
			return fmt.Sprint("can not be compared: ", err1, err2)
		}
		if len(a) != len(b) {
			return fmt.Sprintf("%d elements instead of %d", len(a), len(b))
		}
		for i := range a {
			if a[i] != b[i] {
				return fmt.Sprintf("element %d is %s instead of %s", i, a[i], b[i])
			}
		}
		return ""
	case "func":
		if d.name == "yyParserImpl.Parse" {
			return m.sameParse(pr, p2)
		}
		f, g := s1.Func(d.name), s2.Func(d.name)
		if i := strings.IndexByte(d.name, '.'); i > 0 {
			f, g = pr.method("", d.name[:i], d.name[i+1:]), p2.method("", d.name[:i], d.name[i+1:])
		}
		if f == nil || g == nil {
			return "not declared"
		}
		if s := newBisim(); !s.same(f, g) {
			return s.why
		}
		return ""
	}
	return "unknown declaration"
}

// sameParse compares the parsing functions: the automaton by bisimulation, actions by what they compute.
func (m *gramModel) sameParse(pr, p2 *Program) string {
	mine := map[int]string{}
	for _, p := range m.g.Productions {
		mine[p.No] = m.d.effect(p.Types[0], m.acts[p.No])
	}
	// terms refer to the types of their program
	terms, syms := termTab, symByName
	termTab, symByName = map[string]*Term{}, map[string]*Term{}
	defer func() { termTab, symByName = terms, syms }()
	d2 := findDriver(p2)
	if ok, why := sameDriver(m.d, d2); !ok {
		return "the automaton: " + why
	}
	last := 0
	for _, p := range m.g.Productions {
		if p.No > last {
			last = p.No
		}
		a, b := m.acts[p.No], d2.action(p.No, len(p.Right), nil, nil)
		if a.err != nil || b.err != nil {
			return fmt.Sprintf("the action of %q can not be compared: %v %v", ruleText(p.Left, p.Right), a.err, b.err)
		}
		x, y := mine[p.No], d2.effect(p.Types[0], b)
		if x != y {
			return fmt.Sprintf("the action of %q gives %s instead of %s", ruleText(p.Left, p.Right), x, y)
		}
	}
	for k := range m.d.cases {
		if k > last {
			return fmt.Sprintf("there is an action for production %d of %d", k, last)
		}
	}
	return ""
}

// effect describes what an action does.
func (d *driver) effect(field string, a *action) string {
	var xs []string
	same := map[string]bool{}
	for i := range a.outs {
		o := &a.outs[i]
		s := o.o.Kind
		if o.o.Kind == "stop" {
			v := tNil()
			if field != "" {
				if f := o.fieldOf(field, d.symType); f != nil {
					v = f
				}
			}
			s += fmt.Sprint(" ", v, " ", o.lexer, " ", eventStrings(effects(o.o.St.events)))
		}
		same[s] = true
		xs = append(xs, strings.Join(litStrings(o.o.Lits()), " && ")+" => "+s)
	}
	if len(same) == 1 {
		for s := range same {
			return s
		}
	}
	sort.Strings(xs)
	return strings.Join(xs, "; ")
}

// tableOf evaluates a global variable that is initialised by constants.
func tableOf(p *Program, name string) ([]string, error) {
	for _, q := range p.Pkgs {
		if p.SSA[""] == nil || q.Types != p.SSA[""].Pkg {
			continue
		}
		for _, f := range q.Syntax {
			for _, d := range f.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok || g.Tok != token.VAR {
					continue
				}
				for _, sp := range g.Specs {
					v := sp.(*ast.ValueSpec)
					for i, n := range v.Names {
						if n.Name != name {
							continue
						}
						if len(v.Values) != len(v.Names) {
							return nil, fmt.Errorf("%s has no value of its own", name)
						}
						return constList(q.TypesInfo, v.Values[i])
					}
				}
			}
		}
	}
	return nil, fmt.Errorf("%s was not found", name)
}

func constList(info *types.Info, e ast.Expr) ([]string, error) {
	e = ast.Unparen(e)
	if tv, ok := info.Types[e]; ok && tv.Value != nil {
		return []string{tv.Value.ExactString()}, nil
	}
	c, ok := e.(*ast.CompositeLit)
	if !ok {
		return nil, fmt.Errorf("not a constant")
	}
	at := map[int]string{}
	n, max := 0, 0
	for _, x := range c.Elts {
		if kv, ok := x.(*ast.KeyValueExpr); ok {
			tv, ok := info.Types[kv.Key]
			if !ok || tv.Value == nil {
				return nil, fmt.Errorf("key is not a constant")
			}
			k, err := strconv.Atoi(tv.Value.ExactString())
			if err != nil {
				return nil, err
			}
			n, x = k, kv.Value
		}
		l, err := constList(info, x)
		if err != nil {
			return nil, err
		}
		at[n] = strings.Join(l, ",")
		n++
		if n > max {
			max = n
		}
	}
	if a, ok := info.TypeOf(c).Underlying().(*types.Array); ok {
		max = int(a.Len())
	}
	res := make([]string, max)
	for i := range res {
		res[i] = "0"
		if v, ok := at[i]; ok {
			res[i] = v
		}
	}
	return res, nil
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// runGenerate decides what Generate declares and writes.
func runGenerate(pr *Program, r *Report) {
	g := needGen(pr)
	const RULE = "generate"
	all := "C12 C13 C14 C17 C18 C20 C21"
	pos := g.gen.Pos()
	r.used(all, g.gen, len(g.outs))
	r.check(all, RULE, "Generate", "has ways", pos, len(g.outs) > 0, "no way through Generate was found")
	var assign *LoopInfo
	wrote, failed, auto := 0, 0, 0
	list := "$1.ModuleBody.AssignmentList"
	for i := range g.outs {
		o := &g.outs[i]
		if o.Kind != "ret" || len(o.Results) != 1 {
			r.check("C14 C23", RULE, "Generate", "returns", pos, false, "a way through Generate ends with %s", o.Kind)
			continue
		}
		res := o.Result(0)
		var writes []Event
		for _, e := range o.St.events {
			if e.Kind == "call" && usesWriter(e.Args) && !hasPrefixAny(e.Name, "body", "tag", "leaf", "require") {
				writes = append(writes, e)
			}
			if e.Kind == "loop" {
				for k := range e.Loop.Back {
					if len(deepWrites(e.Loop.Back[k].Events)) > 0 {
						r.check("C14 C23", RULE, "Generate", "writes once", pos, false, "the output is written in a loop")
					}
				}
			}
		}
		for _, l := range loopsOf(o.St.events) {
			if l.Over != nil && l.Over.String() == list && accumulator(l, isDecl) != "" {
				if assign == nil {
					assign = l
				}
			}
		}
		ctx := ctxObjIn(g, o.St)
		var errs, mods *Term
		if ctx != nil {
			errs, mods = fieldOf(g, o.St, ctx, g.errs), fieldOf(g, o.St, ctx, g.mods)
		}
		automatic := hasPos(o.Lits(), "($1.TagDefault == "+pr.konst("", "TAGS_AUTOMATIC").String()+")")
		if automatic {
			auto++
			r.check("C14 C23", RULE, "Generate", "AUTOMATIC TAGS is an error", pos, nonNilErr(res), "returns %s for a module with AUTOMATIC TAGS", res)
		}
		if len(writes) == 0 {
			failed++
			if !r.check("C14 C23", RULE, "Generate", "without output there is an error", pos, nonNilErr(res), "returns %s without having written", res) {
				continue
			}
			if ctx == nil || automatic {
				continue
			}
			empty, known := o.St.decide(tBin("==", tLen(errs), tInt(0)))
			if known && !empty {
				r.check("C14 C23", RULE, "Generate", "every error is reported", pos, reportsAll(o, res, errs), "the error returned, %s, does not show every error that was collected", res)
				continue
			}
			r.check("C14 C23", RULE, "Generate", "fails for collected errors only", pos, false, "fails with %s although no error was collected", res)
			continue
		}
		wrote++
		// output only of modules that gave no error
		ok := false
		if ctx != nil {
			empty, known := o.St.decide(tBin("==", tLen(errs), tInt(0)))
			ok = known && empty
		}
		r.check("C14 C23", RULE, "Generate", "nothing is written after an error", pos, ok && !automatic, "output is written although errors may have been collected")
		w := writes[len(writes)-1]
		r.check("C14 C23", RULE, "Generate", "writes once", pos, len(writes) == 1, "output is written in %d steps", len(writes))
		r.check("C14 C23", RULE, "Generate", "failure to write is returned", pos, resultOf(o, res, w), "returns %s, not the error of %s", res, w.Name)
		var file *Term
		for _, a := range w.Args {
			if typeOfValue(a) == "ast.File" {
				file = a
			}
		}
		printer := (w.Name == "go/printer.Fprint" && len(w.Args) == 3 && w.Args[0].String() == "$2")
		if !r.check(all, RULE, "Generate", "prints the file", pos, printer && file != nil, "output is written by %s", cut(w.String())) {
			continue
		}
		// package clause
		want, known := "", false
		if hasPos(o.Lits(), "(len($0.Params.Package) == 0)") {
			want, known = "goify($1.ModuleIdentifier.Reference)", true
		} else if hasPos(o.Lits(), "!((len($0.Params.Package) == 0))") {
			want, known = "$0.Params.Package", true
		}
		name := part(part(file, "Name"), "Name")
		r.check("C18", RULE, "Generate", "package clause", pos, known && name != nil && name.String() == want, "package name is %s instead of %s", name, want)
		for _, f := range []string{"Doc", "Package", "Comments", "Imports", "Unresolved", "Scope"} {
			if v := part(file, f); v != nil && !isZeroTerm(v) {
				r.check("C20", RULE, "Generate", "file has declarations only", pos, false, "field %s of the file is %s", f, cut(v.String()))
			}
		}
		// declarations
		decls := part(file, "Decls")
		var overs []string
		for _, s := range segs(decls) {
			if s.Op == OpSpread && s.Args[0].Op == OpFlatMap {
				overs = append(overs, s.Args[0].Args[0].String())
			} else {
				overs = append(overs, s.String())
			}
		}
		good := len(overs) == 2 && mods != nil && overs[1] == list && overs[0] == mods.String()
		r.check("C17 C20 C21", RULE, "Generate", "declarations are imports of required packages, then assignments in order", pos, good, "declarations come from %s", cut(strings.Join(overs, "; ")))
		if good {
			fm := segs(decls)[0].Args[0]
			r.check("C17", RULE, "Generate", "one import per required package", pos, importOf(fm), "for a required package it declares %s instead of the import of it", cut(flatMapBody(fm)))
		}
	}
	r.check("C14", RULE, "Generate", "rejects AUTOMATIC TAGS", pos, auto > 0, "AUTOMATIC TAGS is not looked at")
	r.check("C14", RULE, "Generate", "rejects modules with errors", pos, failed > auto, "no way through Generate reports collected errors")
	r.check(all, RULE, "Generate", "writes output", pos, wrote > 0, "no way through Generate writes output")
	if r.check("C20 C21 C18 C13", RULE, "Generate", "loop over assignments", pos, assign != nil, "no loop over the assignments was found") {
		g.assignments(r, assign)
	}
	g.requires(r)
	g.purity(r)
	g.factory(r)
}

func isDecl(t *Term) bool { return typeOfValue(t) == "ast.GenDecl" || typeOfValue(t) == "ast.FuncDecl" }

func cut(s string) string {
	if len(s) > 300 {
		return s[:300] + " ..."
	}
	return s
}

func hasPrefixAny(s string, ps ...string) bool {
	for _, p := range ps {
		if s == p {
			return true
		}
	}
	return false
}

func usesWriter(args []*Term) bool {
	for _, a := range args {
		if anyTerm(a, func(t *Term) bool { return t.Op == OpSym && t.Name == "$2" }) {
			return true
		}
	}
	return false
}

func deepWrites(es []Event) []Event {
	var ws []Event
	for _, e := range es {
		if e.Kind != "loop" && usesWriter(e.Args) {
			ws = append(ws, e)
		}
		if e.Loop != nil {
			for k := range e.Loop.Back {
				ws = append(ws, deepWrites(e.Loop.Back[k].Events)...)
			}
		}
	}
	return ws
}

// nonNilErr: is an error value certainly not nil.
func nonNilErr(t *Term) bool {
	if t.Op == OpIface {
		return true
	}
	return t.Op == OpCall && (t.Name == "errors.New" || t.Name == "fmt.Errorf")
}

// resultOf: is t what the call e returns.
func resultOf(o *Outcome, t *Term, e Event) bool {
	if t.isNil() {
		// the result was looked at and is nil
		for _, l := range o.Lits() {
			if l.Op == OpBin && l.Name == "==" && l.Args[1].Op == OpNil && resultOf(o, l.Args[0], e) {
				return true
			}
		}
	}
	if t.Op != OpCall {
		return false
	}
	return strings.HasPrefix(t.String(), e.Name+"(")
}

// ctxObjIn finds the context of the generation: the object whose errors were touched.
func ctxObjIn(g *gen, st *State) *Term {
	var ids []int
	for id, o := range st.heap {
		if types.Identical(o.typ, g.ctx) {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		if v := fieldOf(g, st, tObj(id), g.errs); v != nil && !isZeroTerm(v) {
			return tObj(id)
		}
	}
	if len(ids) == 1 {
		return tObj(ids[0])
	}
	return nil
}

func fieldOf(g *gen, st *State, obj *Term, name string) *Term {
	s := g.ctx.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			v, _ := readPath(st.heap[obj.Obj].content, g.ctx, []string{name})
			return st.snapshot(v)
		}
	}
	return nil
}

// flatMapBody renders what a list made by a loop has for each element X, if it is the same for all.
func flatMapBody(fm *Term) string {
	if len(fm.Args) != 2 || fm.Args[1].Op != OpCase {
		return fmt.Sprintf("%d cases", len(fm.Args)-1)
	}
	c := fm.Args[1]
	s := c.String()
	return s
}

// reportsAll: does the error show every element of the list of errors.
func reportsAll(o *Outcome, res, errs *Term) bool {
	if anyTerm(res, func(t *Term) bool { return t == errs }) && !anyTerm(res, func(t *Term) bool { return t.Op == OpIndex && t.Args[0] == errs }) {
		return true
	}
	for _, l := range loopsOf(o.St.events) {
		if l.Over == nil || l.Over != errs {
			continue
		}
		for n := range l.Phis {
			if !anyTerm(res, func(t *Term) bool { return t.Op == OpSym && t.Name == n }) {
				continue
			}
			ok := len(l.Back) > 0
			for k := range l.Back {
				v := l.Back[k].Phis[n]
				if v == nil || !mentions(v, n) || !anyTerm(v, func(t *Term) bool { return t == l.Elem }) {
					ok = false
				}
			}
			if ok && len(l.Exits) == 1 {
				return true
			}
		}
	}
	return anyTerm(res, func(t *Term) bool {
		if t.Op != OpFlatMap || t.Args[0] != errs {
			return false
		}
		return len(t.Args) == 2 && strings.Contains(flatMapBody(t), "elem")
	})
}

// importOf: does a list made by a loop over packages consist of one import per package.
func importOf(fm *Term) bool {
	if len(fm.Args) != 2 || fm.Args[1].Op != OpCase || len(fm.Args[1].Args[0].Args) != 0 {
		return false
	}
	ds := segs(fm.Args[1].Args[1])
	if len(ds) != 1 || ds[0].Op != OpElem || typeOfValue(ds[0].Args[0]) != "ast.GenDecl" {
		return false
	}
	d := ds[0].Args[0]
	if tok, ok := part(d, "Tok").intVal(); !ok || token.Token(tok) != token.IMPORT {
		return false
	}
	ss := segs(part(d, "Specs"))
	if len(ss) != 1 || ss[0].Op != OpElem || typeOfValue(ss[0].Args[0]) != "ast.ImportSpec" {
		return false
	}
	if n := part(ss[0].Args[0], "Name"); n != nil && !isZeroTerm(n) {
		return false
	}
	v := part(part(ss[0].Args[0], "Path"), "Value")
	if v == nil {
		return false
	}
	x := regexp.MustCompile(`elem\d+`).ReplaceAllString(v.String(), "X")
	return x == `"\"" + X + "\""` || x == "strconv.Quote(X)" || x == "fmt(q, X)"
}

// declares lists what the declarations in a list declare, part by part.
func declares(list *Term) (eff []string, loops []*Term) {
	for i, d := range segs(list) {
		if d.Op != OpElem || typeOfValue(d.Args[0]) != "ast.GenDecl" {
			eff = append(eff, "decl "+d.String())
			continue
		}
		tok, _ := part(d.Args[0], "Tok").intVal()
		specs := segs(part(d.Args[0], "Specs"))
		eff = append(eff, fmt.Sprintf("decl %d %s", i, token.Token(tok)))
		for k, s := range specs {
			at := fmt.Sprintf("%d.%d ", i, k)
			if s.Op == OpSpread && s.Args[0].Op == OpFlatMap {
				eff = append(eff, "numbers "+at+s.Args[0].Args[0].String())
				loops = append(loops, s.Args[0])
				continue
			}
			if s.Op != OpElem {
				eff = append(eff, "decl "+at+s.String())
				continue
			}
			eff = append(eff, specParts(s.Args[0], at)...)
		}
	}
	return
}

func specParts(s *Term, at string) (eff []string) {
	switch typeOfValue(s) {
	case "ast.TypeSpec":
		eff = append(eff, "name "+at+goText(part(s, "Name")), "type "+at+goText(part(s, "Type")))
		if a := part(s, "Assign"); a != nil && !isZeroTerm(a) {
			eff = append(eff, "form "+at+"alias")
		} else {
			eff = append(eff, "form "+at+"definition")
		}
	case "ast.ValueSpec":
		names := segs(part(s, "Names"))
		values := segs(part(s, "Values"))
		if len(names) != 1 || len(values) != 1 || names[0].Op != OpElem || values[0].Op != OpElem {
			return []string{"decl " + at + s.String()}
		}
		eff = append(eff, "name "+at+goText(names[0].Args[0]), "type "+at+goText(part(s, "Type")), "value "+at+goText(values[0].Args[0]))
	default:
		eff = append(eff, "decl "+at+s.String())
	}
	return
}

func (g *gen) assignments(r *Report, l *LoopInfo) {
	pr := g.pr
	pos := g.gen.Pos()
	acc := accumulator(l, isDecl)
	ps, outer := g.iterations(l, "x", acc, nil)
	kinds := map[string]string{"x": "Assignment"}
	nn := map[string]bool{"x": true}
	for i := range ps {
		p := &ps[i]
		var es []string
		for _, e := range p.eff {
			if !strings.HasPrefix(e, "loop ") { // what is done for named numbers is judged below
				es = append(es, e)
			}
		}
		p.eff = es
		if p.term == nil {
			if p.ret != "" {
				p.eff = append(p.eff, "decl "+p.ret)
			}
			continue
		}
		ds, _ := declares(p.term)
		for _, d := range ds {
			for _, x := range []string{"x.(asn1go.ValueAssignment).Value", "x.(asn1go.ValueAssignment).Value.(asn1go.Real)"} {
				if d == "value 0.0 fmt(v, "+x+")" || d == "value 0.0 fmt(g, "+x+")" || d == "value 0.0 fmt(v, iface[float64]("+x+"))" || d == "value 0.0 fmt(g, iface[float64]("+x+"))" || d == "value 0.0 strconv.FormatFloat("+x+", 102, -1, 64)" || d == "value 0.0 strconv.FormatFloat("+x+", 103, -1, 64)" || d == "value 0.0 strconv.FormatFloat("+x+", 101, -1, 64)" {
					d = "value 0.0 exact x.(asn1go.ValueAssignment).Value.(asn1go.Real)"
				}
			}
			p.eff = append(p.eff, d)
		}
		p.ret = "declares"
	}
	setArg := -1
	for i, p := range g.body.Params {
		if pt, ok := p.Type().(*types.Pointer); ok && types.TypeString(pt.Elem(), nil) == "bool" {
			setArg = i
		}
	}
	body := func(t string) string { return "body(ctx, " + t + ", &false)" }
	ta := "x.(asn1go.TypeAssignment)"
	N := "goify(" + ta + ".TypeReference)"
	B := body(ta + ".Type")
	isSet := fmt.Sprintf("out%d:%s", setArg, B)
	call := "body(" + ta + ".Type, &false)"
	numbers := "bare(" + ta + ".Type).(asn1go.IntegerType).NamedNumberList"
	isInt := "is[asn1go.IntegerType](bare(" + ta + ".Type))"
	var rows []trow
	type form struct {
		name string
		when []string
		eff  []string
	}
	forms := []form{
		{"SET", []string{isSet}, []string{"name 0.0 " + N + ` + "SET"`, "type 0.0 " + B, "form 0.0 definition", "name 0.1 " + N, "type 0.1 " + N + ` + "SET"`, "form 0.1 alias"}},
		{"struct", []string{"is[*ast.StructType](" + B + ")"}, []string{"name 0.0 " + N, "type 0.0 " + B, "form 0.0 definition"}},
		{"other type", nil, []string{"name 0.0 " + N, "type 0.0 " + B, "form 0.0 alias"}},
	}
	for _, f := range forms {
		for _, n := range []form{
			{"with named numbers", []string{isInt, "!(len(" + numbers + ") == 0)"}, []string{"decl 1 var", "numbers 1.0 " + numbers}},
			{"without named numbers", nil, nil}} {
			rows = append(rows, trow{name: f.name + " " + n.name, when: append(append([]string{"is[asn1go.TypeAssignment](x)"}, f.when...), n.when...),
				eff: append(append([]string{"decl 0 type", call}, f.eff...), n.eff...)})
		}
	}
	// values
	va := "x.(asn1go.ValueAssignment)"
	V := va + ".Value"
	common := []string{"decl 0 var", "name 0.0 \"Val\" + goify(" + va + ".ValueReference)", "type 0.0 " + body(va+".Type"), "body(" + va + ".Type, &false)"}
	value := func(name string, when []string, eff ...string) trow {
		return trow{name: name, when: append([]string{"is[asn1go.ValueAssignment](x)"}, when...), eff: append(append([]string{}, common...), eff...)}
	}
	T := "bare(" + va + ".Type)"
	num := "fmt(dec, " + V + ".(asn1go.Number))"
	isNum := "is[asn1go.Number](" + V + ")"
	real := V + ".(asn1go.Real)"
	isReal := "is[asn1go.Real](" + V + ")"
	inf := "math.IsInf(" + real + ", 0)"
	rows = append(rows,
		value("number of REAL type", []string{isNum, "is[asn1go.RealType](" + T + ")"}, "value 0.0 "+num),
		value("number of referenced REAL type", []string{isNum, "is[asn1go.TypeReference](" + T + ")", "is[asn1go.RealType](bare(leaf(ctx, " + T + ".(asn1go.TypeReference)).Type))"}, "value 0.0 "+num),
		value("number as big integer", []string{isNum, `($0.Params.IntegerRepr == "big.Int")`}, "value 0.0 big.NewInt("+num+")", `require "math/big"`),
		value("number", []string{isNum}, "value 0.0 "+num),
		value("TRUE", []string{"is[asn1go.Boolean](" + V + ")", V + ".(asn1go.Boolean)"}, "value 0.0 true"),
		value("FALSE", []string{"is[asn1go.Boolean](" + V + ")"}, "value 0.0 false"),
		value("MINUS-INFINITY", []string{isReal, inf, "(" + real + " < 0)"}, "value 0.0 math.Inf(-1)", `require "math"`),
		value("PLUS-INFINITY", []string{isReal, inf}, "value 0.0 math.Inf(1)", `require "math"`),
		value("real", []string{isReal}, "value 0.0 exact "+real),
		trow{when: []string{"is[asn1go.ValueAssignment](x)"}, free: true}, // values of other kinds are not generated
	)
	r.decide(&table{props: map[string]string{"": "C20 C21", "name": "C18 C20 C21", "type": "C13 C20 C21", "body": "C13", "form": "C20", "decl": "C20 C21", "numbers": "C21", "value": "C21", "require": "C17", "error": "C14"},
		rule: "assignment", subject: "declaration", paths: ps, rows: rows, kinds: kinds, notNil: nn, pos: pos})
	// all assignments are visited
	r.check("C20 C21", "assignment", "loop over assignments", "goes to the end", pos, len(l.Exits) == 1, "the loop over assignments has %d ends", len(l.Exits))

	// named numbers
	var np []tpath
	seen := 0
	for i := range l.Back {
		b := &l.Back[i]
		for _, nl := range loopsOf(b.Events) {
			if nl.Over == nil {
				continue
			}
			memo := map[*Term]*Term{}
			if subst(nl.Over, outer, memo).String() != numbers {
				continue
			}
			a := accumulator(nl, func(t *Term) bool { return typeOfValue(t) == "ast.ValueSpec" })
			if a == "" {
				continue
			}
			seen++
			r.check("C21", "assignment", "loop over named numbers", "goes to the end", pos, len(nl.Exits) == 1, "the loop over named numbers has %d ends", len(nl.Exits))
			qs, _ := g.iterations(nl, "n", a, outer)
			for k := range qs {
				q := &qs[k]
				if q.term == nil {
					q.eff = append(q.eff, "decl "+q.ret)
					continue
				}
				for _, s := range segs(q.term) {
					if s.Op == OpElem {
						q.eff = append(q.eff, specParts(s.Args[0], "")...)
					} else {
						q.eff = append(q.eff, "decl "+s.String())
					}
				}
				q.ret = fmt.Sprint(len(segs(q.term)), " variables")
			}
			np = append(np, qs...)
		}
	}
	if !r.check("C21", "assignment", "named numbers", "loop", pos, seen > 0, "no loop over named numbers was found") {
		return
	}
	nv := "n.Value.(asn1go.Number)"
	dv := "n.Value.(asn1go.DefinedValue)"
	list := "$1.ModuleBody.AssignmentList"
	found := "found(" + list + ", " + dv + ".ValueName)"
	look := "lookup(" + list + ", " + dv + ".ValueName)"
	isDV := "is[asn1go.DefinedValue](n.Value)"
	one := []string{"1 variables"}
	ncommon := []string{"name " + N + ` + "Val" + goify(n.Name)`, "type " + N}
	nrow := func(name string, when []string, eff ...string) trow {
		return trow{name: name, when: when, ret: one, eff: append(append([]string{}, ncommon...), eff...)}
	}
	_ = pr
	r.decide(&table{props: map[string]string{"": "C21", "name": "C18 C21", "type": "C21", "require": "C17", "error": "C14 C21", "value": "C21"},
		rule: "assignment", subject: "named number", paths: np, kinds: map[string]string{"n.Value": "Value"}, pos: pos,
		rows: []trow{
			nrow("number as big integer", []string{"is[asn1go.Number](n.Value)", `($0.Params.IntegerRepr == "big.Int")`}, "value big.NewInt(fmt(dec, "+nv+"))", `require "math/big"`),
			nrow("number", []string{"is[asn1go.Number](n.Value)"}, "value fmt(dec, "+nv+")"),
			{name: "reference to another module", when: []string{isDV, "!(len(" + dv + ".ModuleName) == 0)"}, eff: []string{"error", "*"}},
			{name: "reference to nothing", when: []string{isDV, "!" + found}, eff: []string{"error", "*"}},
			{name: "reference to no value", when: []string{isDV, "!is[asn1go.ValueAssignment](" + look + ")"}, eff: []string{"error", "*"}},
			{name: "reference to a value that is no number", when: []string{isDV, "!is[asn1go.Number](" + look + ".(asn1go.ValueAssignment).Value)"}, eff: []string{"error", "*"}},
			nrow("reference to a number", []string{isDV}, `value "Val" + goify(`+dv+".ValueName)"),
			{free: true},
		}})
}

// requires decides the function that notes required packages.
func (g *gen) requires(r *Report) {
	in := newInterp(g.pr)
	outs, err := in.runDefault(g.require)
	if err != nil {
		panic(undecided{err.Error()})
	}
	r.used("C17", g.require, len(outs))
	ctx, name := "$0", "$1"
	if types.TypeString(g.require.Params[0].Type(), nil) == "string" {
		ctx, name = name, ctx
	}
	var ps []tpath
	for i := range outs {
		o := &outs[i]
		p := tpath{lits: o.Lits()}
		for _, e := range visible(o.St.events) {
			switch {
			case e.Kind == "loop":
			case len(e.Args) == 2 && e.Args[1].String() == "[*"+ctx+"."+g.mods+"..., "+name+"]" && (e.Kind == "store" || e.Kind == "append"):
				p.eff = append(p.eff, "require")
			default:
				p.eff = append(p.eff, "other "+e.String())
			}
		}
		ps = append(ps, p)
	}
	x, y := name, "it"
	if x > y {
		x, y = y, x
	}
	r.decide(&table{props: map[string]string{"": "C17"}, rule: "require", subject: shortFn(g.require), paths: ps, pos: g.require.Pos(), rows: []trow{
		{name: "required before", when: []string{"exists(*" + ctx + "." + g.mods + "; !((" + x + " == " + y + ")))"}},
		{name: "new", eff: []string{"require"}},
	}})
}

// factory decides NewCodeGenerator.
func (g *gen) factory(r *Report) {
	f := g.pr.pkg("").Func("NewCodeGenerator")
	const RULE = "parameters"
	if !r.check("C12 C13 C18", RULE, "NewCodeGenerator", "exists", token.NoPos, f != nil, "NewCodeGenerator was not found") {
		return
	}
	in := newInterp(g.pr)
	outs, err := in.runDefault(f)
	if err != nil {
		panic(undecided{err.Error()})
	}
	r.used("C13 C18", f, len(outs))
	var ps []tpath
	for i := range outs {
		o := &outs[i]
		p := tpath{lits: o.Lits(), ret: "none"}
		v := o.Result(0)
		for v.Op == OpIface || v.Op == OpPtr {
			v = v.Args[0]
		}
		if v.Op == OpStruct {
			p.ret = "generator"
			st := v.Typ.Underlying().(*types.Struct)
			for k := 0; k < st.NumFields(); k++ {
				if isNamed(st.Field(k).Type(), g.pr.pkg("").Pkg.Path(), "GenParams") {
					for _, n := range []string{"Package", "IntegerRepr"} {
						x, _ := readPath(v.Args[k], st.Field(k).Type(), []string{n})
						p.eff = append(p.eff, n+" "+x.String())
					}
				}
			}
		} else if v.Op != OpNil {
			p.ret = v.String()
		}
		for _, e := range visible(o.St.events) {
			p.eff = append(p.eff, "other "+e.String())
		}
		ps = append(ps, p)
	}
	std := "($0.Type == " + g.pr.konst("", "GEN_DECLARATIONS").String() + ")"
	r.decide(&table{props: map[string]string{"": "C13", "Package": "C18", "IntegerRepr": "C13"}, rule: RULE, subject: "NewCodeGenerator", paths: ps, pos: f.Pos(), rows: []trow{
		{name: "unknown kind of generator", when: []string{"!" + std}, ret: []string{"none"}, eff: []string{"*"}},
		{name: "no integer representation", when: []string{"(len($0.IntegerRepr) == 0)"}, ret: []string{"generator"}, eff: []string{"Package $0.Package", `IntegerRepr "int64"`}},
		{name: "integer representation", ret: []string{"generator"}, eff: []string{"Package $0.Package", "IntegerRepr $0.IntegerRepr"}},
	}})
}

// purity decides that generation has no effects and sources other than its arguments.
func (g *gen) purity(r *Report) {
	const RULE = "effects"
	pr := g.pr
	fs := pr.reachableFrom(g.gen)
	model := pr.typesIn(pr.typ("", "ModuleDefinition"))
	bad := 0
	sites := 0
	complain := func(props string, f *ssa.Function, pos token.Pos, what string) {
		bad++
		r.check(props, RULE, shortFn(f), what, pos, false, "%s in %s", what, shortFn(f))
	}
	inModel := func(t types.Type) bool { return model[types.TypeString(t, nil)] }
	for _, f := range fs {
		r.used("C12", f, 0)
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				sites++
				switch x := ins.(type) {
				case *ssa.Store:
					root, path := rootOf(x.Addr)
					if why := g.badStore(root, path, x.Addr, inModel); why != "" {
						complain("C12", f, x.Pos(), why)
					}
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						if pt, ok := fa.X.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), g.ctx) {
							name := g.ctx.Underlying().(*types.Struct).Field(fa.Field).Name()
							if name == g.errs || name == g.mods {
								if c, ok := x.Val.(*ssa.Const); ok && c.Value == nil {
									if _, ok := rootOnly(fa.X).(*ssa.Alloc); ok {
										continue // initialisation
									}
								}
								props := "C14"
								if name == g.mods {
									props = "C17"
								}
								if !appendsTo(x.Val, fa, 0) {
									complain(props, f, x.Pos(), "assignment to "+name+" that is no addition")
								}
							}
						}
					}
				case *ssa.MapUpdate:
					root := rootOnly(x.Map)
					if _, ok := root.(*ssa.MakeMap); !ok {
						if inModel(x.Map.Type()) || isGlobal(root) {
							complain("C12", f, x.Pos(), "update of a map that is not local")
						}
					}
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						complain("C12", f, x.Pos(), "iteration over a map")
					}
				case *ssa.Go:
					complain("C12", f, x.Pos(), "go statement")
				case *ssa.Select, *ssa.Send, *ssa.MakeChan:
					complain("C12", f, ins.Pos(), "use of channels")
				case *ssa.UnOp:
					if gl, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
						if ws := pr.gwrites[gl]; len(ws) > 0 {
							complain("C12", f, x.Pos(), "read of the variable "+gl.Name()+", which "+shortFn(ws[0].Parent())+" changes")
						}
						if gl.Pkg != nil && gl.Pkg.Pkg.Path() == "os" {
							complain("C12", f, x.Pos(), "use of os."+gl.Name())
						}
					}
				}
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append":
						if inModel(cc.Args[0].Type()) && !freshSlice(cc.Args[0], map[ssa.Value]bool{}) {
							complain("C12", f, ins.Pos(), "append to a list of the module")
						}
					case "copy", "clear", "delete":
						if inModel(cc.Args[0].Type()) && !freshSlice(cc.Args[0], map[ssa.Value]bool{}) {
							complain("C12", f, ins.Pos(), bi.Name()+" changes a list of the module")
						}
					}
					continue
				}
				h := cc.StaticCallee()
				for _, a := range cc.Args {
					if gl, ok := a.(*ssa.Global); ok {
						complain("C12", f, ins.Pos(), "address of the variable "+gl.Name()+" is passed on")
					}
				}
				if h == nil || h.Pkg == nil || pr.ours(h) {
					continue
				}
				path := h.Pkg.Pkg.Path()
				if !harmless[path] {
					complain("C12", f, ins.Pos(), "call of "+h.String())
				} else if path == "sort" || path == "slices" {
					for _, a := range cc.Args {
						v := a
						if mi, ok := v.(*ssa.MakeInterface); ok {
							v = mi.X
						}
						if inModel(v.Type()) && !freshSlice(v, map[ssa.Value]bool{}) && strings.Contains(h.Name(), "S") {
							complain("C12", f, ins.Pos(), h.String()+" reorders a list of the module")
						}
					}
				}
			}
		}
	}
	r.check("C12", RULE, "Generate", fmt.Sprintf("%d functions and %d instructions are pure", len(fs), sites), g.gen.Pos(), bad == 0, "%d impure constructs", bad)
	initPurity(pr, r, "C12")
	// generation starts with nothing collected
	e, m := fieldOf(g, g.state, g.ctxObj, g.errs), fieldOf(g, g.state, g.ctxObj, g.mods)
	empty := func(t *Term) bool { return t != nil && (isZeroTerm(t) || t.Op == OpList && len(t.Args) == 0) }
	r.check("C12 C14", RULE, "Generate", "no errors to start with", g.gen.Pos(), empty(e), "generation starts with errors %s", e)
	r.check("C12 C17", RULE, "Generate", "no packages to start with", g.gen.Pos(), empty(m), "generation starts with packages %s", m)
}

// harmless lists packages whose functions are functions of their arguments, apart from writing to a given writer.
var harmless = map[string]bool{"fmt": true, "strings": true, "errors": true, "math": true, "strconv": true, "go/ast": true, "go/printer": true, "go/token": true, "go/format": true,
	"bytes": true, "unicode": true, "unicode/utf8": true, "sort": true, "slices": true, "io": true, "bufio": true, "math/big": true, "cmp": true}

func isGlobal(v ssa.Value) bool { _, ok := v.(*ssa.Global); return ok }

// rootOf follows an address to what it is an address in.
func rootOf(v ssa.Value) (ssa.Value, int) {
	n := 0
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
				return x.X, n + 1
			}
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v, n
		}
		n++
	}
}

func rootOnly(v ssa.Value) ssa.Value {
	for {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			v = u.X
			continue
		}
		r, n := rootOf(v)
		if n == 0 {
			return r
		}
		v = r
	}
}

// badStore says what is wrong with a store: generation may change its own variables, its context and the Go syntax tree it builds.
func (g *gen) badStore(root ssa.Value, n int, addr ssa.Value, inModel func(types.Type) bool) string {
	switch x := root.(type) {
	case *ssa.Alloc:
		return ""
	case *ssa.FreeVar:
		return ""
	case *ssa.Global:
		return "assignment to the variable " + x.Name()
	}
	if _, ok := root.Type().Underlying().(*types.Slice); ok {
		if freshSlice(root, map[ssa.Value]bool{}) {
			return ""
		}
		if isGlobal(rootOnly(root)) {
			return "assignment to an element of a global variable"
		}
		if inModel(root.Type()) {
			return "assignment to an element of a list of the module"
		}
		return ""
	}
	pt, ok := root.Type().Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	if isGlobal(rootOnly(root)) {
		return "assignment to what a global variable points to"
	}
	if types.Identical(pt.Elem(), g.ctx) {
		return ""
	}
	if nt, ok := pt.Elem().(*types.Named); ok && nt.Obj().Pkg() == g.pr.pkg("").Pkg {
		if inModel(pt.Elem()) {
			return "assignment to a part of the module"
		}
		if types.Implements(types.NewPointer(nt), g.pr.typ("", "CodeGenerator").Underlying().(*types.Interface)) {
			return "assignment to the generator itself"
		}
	}
	return ""
}

// freshSlice: was the slice made here.
func freshSlice(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const, *ssa.MakeSlice, *ssa.MakeMap:
		return true
	case *ssa.Slice:
		if _, ok := x.X.(*ssa.Alloc); ok {
			return true
		}
		if x.Max != nil {
			return false
		}
		return freshSlice(x.X, seen)
	case *ssa.ChangeType:
		return freshSlice(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !freshSlice(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return freshSlice(x.Call.Args[0], seen)
		}
		if f := x.Call.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "slices" && f.Name() == "Clone" {
			return true
		}
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			// all values stored there
			for _, ref := range *a.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == a && !freshSlice(s.Val, seen) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// appendsTo: is v the result of adding to the field that a is the address of.
func appendsTo(v ssa.Value, a *ssa.FieldAddr, depth int) bool {
	if depth > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return appendsTo(x.Call.Args[0], a, depth+1)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !appendsTo(e, a, depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if f, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return f.Field == a.Field && types.Identical(f.X.Type(), a.X.Type())
		}
	}
	return false
}

// ours: does the function belong to the program that is analysed.
func (pr *Program) ours(f *ssa.Function) bool {
	return f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), pr.pkg("").Pkg.Path())
}

// reachableFrom lists functions of the program that can be called from f, with methods by name for calls through interfaces.
func (pr *Program) reachableFrom(f *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var order []*ssa.Function
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		if !pr.ours(f) && f.Parent() == nil && f.Synthetic == "" {
			return
		}
		seen[f] = true
		order = append(order, f)
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						walk(g)
					}
				}
				if c, ok := ins.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					m := c.Common().Method
					for _, g := range pr.Funcs {
						if g.Name() == m.Name() && g.Signature.Recv() != nil && g.Synthetic == "" && types.Implements(g.Signature.Recv().Type(), c.Common().Value.Type().Underlying().(*types.Interface)) {
							walk(g)
						}
					}
				}
			}
		}
	}
	walk(f)
	sort.Slice(order, func(i, j int) bool { return order[i].String() < order[j].String() })
	return order
}

// typesIn lists all types values of type t can be made of.
func (pr *Program) typesIn(t types.Type) map[string]bool {
	m := map[string]bool{}
	var walk func(t types.Type)
	walk = func(t types.Type) {
		k := types.TypeString(t, nil)
		if m[k] {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return
		case *types.Struct:
			m[k] = true
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type())
			}
		case *types.Slice:
			m[k] = true
			m["[]"+types.TypeString(u.Elem(), nil)] = true
			walk(u.Elem())
		case *types.Array:
			m[k] = true
			walk(u.Elem())
		case *types.Map:
			m[k] = true
			walk(u.Elem())
		case *types.Pointer:
			m[k] = true
			walk(u.Elem())
		case *types.Interface:
			if u.NumMethods() == 0 {
				return
			}
			m[k] = true
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() == pr.pkg("").Pkg {
				for _, i := range pr.implementers("", t) {
					walk(i)
				}
			}
		}
	}
	if t != nil {
		walk(t)
	}
	return m
}

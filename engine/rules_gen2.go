package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("types", "C13 C14 C15 C16 C17 C18 C19 C20 C22",
		"The translation of types is interpreted for every kind of type that implements the Type interface; results, required packages, reported errors and the SET flag are compared with a decision table for all combinations of conditions.", runTypes)
	register("tags", "C14 C16", "The construction of struct tags is interpreted; what it collects before, in and after the loop that removes tags and constraints is compared with decision tables.", runTags)
	register("refs", "C02 C14 C19 C22", "Resolution of references and the test for tagged alternatives are compared with decision tables, with the loop over references summarised by its paths.", runRefs)
	register("generate", "C12 C13 C14 C17 C18 C20 C21 C23", "Generate is interpreted with everything it calls; declarations are compared per assignment with decision tables, and writing is required to happen exactly when no error was collected.", runGenerate)
}

func needGen(pr *Program) *gen {
	g := findGen(pr)
	if g.err != nil {
		panic(undecided{g.err.Error()})
	}
	return g
}

// Go expressions are compared by the text they are printed as; goText gives it, with terms for the parts that are not constant.
func goText(t *Term) string {
	if t == nil {
		return "nothing"
	}
	str := func(x *Term) string {
		if s, ok := x.strVal(); ok {
			return s
		}
		return x.String()
	}
	switch typeOfValue(t) {
	case "ast.Ident":
		return str(part(t, "Name"))
	case "ast.BasicLit":
		return str(part(t, "Value"))
	case "ast.StarExpr":
		return "*" + goText(part(t, "X"))
	case "ast.ParenExpr":
		return "(" + goText(part(t, "X")) + ")"
	case "ast.UnaryExpr":
		if op, ok := part(t, "Op").intVal(); ok {
			return token.Token(op).String() + goText(part(t, "X"))
		}
	case "ast.ArrayType":
		if isZeroTerm(part(t, "Len")) {
			return "[]" + goText(part(t, "Elt"))
		}
	case "ast.SelectorExpr":
		return goText(part(t, "X")) + "." + goText(part(t, "Sel"))
	case "ast.InterfaceType":
		if l := part(part(t, "Methods"), "List"); l != nil && (isZeroTerm(l) || len(segs(l)) == 0) {
			return "interface{}"
		}
	case "ast.CallExpr":
		s := goText(part(t, "Fun")) + "("
		for i, a := range segs(part(t, "Args")) {
			if i > 0 {
				s += ", "
			}
			if a.Op == OpElem {
				s += goText(a.Args[0])
			} else {
				s += a.String()
			}
		}
		return s + ")"
	}
	return t.String()
}

func goIdent(name string) string { return name }
func goLit(s string) string      { return s }
func goArray(elt string) string  { return "[]" + elt }

const goAny = "interface{}"

func runTypes(pr *Program, r *Report) {
	g := needGen(pr)
	outs, err := g.run(g.interp(), g.body, map[string]string{"Type": "t"})
	if err != nil {
		panic(undecided{err.Error()})
	}
	unwrapped := bareOnly(outs, "t")
	if unwrapped {
		// wrappers are removed first: what is left is treated
		in := g.interp()
		in.bareSym = "t"
		outs, err = g.run(in, g.body, map[string]string{"Type": "t"})
		if err != nil {
			panic(undecided{err.Error()})
		}
	}
	r.used("C13 C14 C15 C16 C17 C18 C19 C20 C22", g.body, len(outs))
	paths := g.paths(outs)
	const RULE = "type"
	typeT := pr.typ("", "Type")
	as := func(k string) string { return "t.(asn1go." + k + ")" }
	isSetArgs := []string{"set", "&false", "&true"}
	anyBody := func(x string, wrap func(string) string) (rets []string, effs []string) {
		for _, s := range isSetArgs {
			rets = append(rets, wrap("body(ctx, "+x+", "+s+")"))
			effs = append(effs, "~body("+x+", "+s+")")
		}
		return
	}
	through := func(x string) ([]string, []string) {
		return []string{"body(ctx, " + x + ", set)", "body(ctx, bare(t), set)"}, []string{"body(" + x + ", set) || body(bare(t), set)"}
	}
	rowsOf := map[string][]trow{
		"BooleanType":          {{ret: []string{goLit("bool")}}},
		"RealType":             {{ret: []string{goLit("float64")}}},
		"CharacterStringType":  {{ret: []string{goLit("string")}}},
		"RestrictedStringType": {{ret: []string{goLit("string")}}},
		"OctetStringType":      {{ret: []string{goArray(goLit("byte"))}}},
		"AnyType":              {{ret: []string{goAny}}},
		"BitStringType":        {{ret: []string{goLit("asn1.BitString")}, eff: []string{`require "encoding/asn1"`}}},
		"EnumeratedType":       {{ret: []string{goLit("asn1.Enumerated")}, eff: []string{`require "encoding/asn1"`}}},
		"ObjectIdentifierType": {{ret: []string{goLit("asn1.ObjectIdentifier")}, eff: []string{`require "encoding/asn1"`}}},
		"IntegerType": {
			{when: []string{`($0.Params.IntegerRepr == "int64")`}, ret: []string{goLit("int64")}},
			{when: []string{`($0.Params.IntegerRepr == "big.Int")`}, ret: []string{"*big.Int"}, eff: []string{`require "math/big"`}},
			{eff: []string{"error", "*"}},
		},
	}
	{
		rs, es := through(as("TaggedType") + ".Type")
		rowsOf["TaggedType"] = []trow{{ret: rs, eff: es}}
		rs, es = through(as("ConstraintedType") + ".Type")
		rowsOf["ConstraintedType"] = []trow{{ret: rs, eff: es}}
		rs, es = []string{goArray("body(ctx, " + as("SequenceOfType") + ".Type, &false)")}, []string{"body(" + as("SequenceOfType") + ".Type, &false)"}
		rowsOf["SequenceOfType"] = []trow{{ret: rs, eff: es}}
		rs, es = anyBody(as("SetOfType")+".Type", goArray)
		rowsOf["SetOfType"] = []trow{{ret: rs, eff: append(es, "set")}}
	}
	L := "leaf(ctx, " + as("TypeReference") + ")"
	rowsOf["TypeReference"] = []trow{
		{name: "no definition, but a time type", when: []string{"(" + L + ".Type == nil)", "(" + L + `.TypeReference == "GeneralizedTime")`}, ret: []string{goLit("time.Time")}, eff: []string{`require "time"`}},
		{name: "no definition, but a time type (UTC)", when: []string{"(" + L + ".Type == nil)", "(" + L + `.TypeReference == "UTCTime")`}, ret: []string{goLit("time.Time")}, eff: []string{`require "time"`}},
		{name: "no definition", when: []string{"(" + L + ".Type == nil)"}, eff: []string{"error", "*"}},
		{when: []string{"(" + L + `.TypeReference == "GeneralizedTime")`}, free: true},
		{when: []string{"(" + L + `.TypeReference == "UTCTime")`}, free: true},
		{name: "BIT STRING", when: []string{"is[asn1go.BitStringType](bare(" + L + ".Type))"}, ret: []string{goLit("asn1.BitString")}, eff: []string{`require "encoding/asn1"`}},
		{name: "any other type", ret: []string{goIdent("goify(" + as("TypeReference") + ")")}},
	}
	alts := as("ChoiceType") + ".AlternativeTypeList"
	tagged := "exists(" + alts + "; !(tagged(it.Type)))"
	rowsOf["ChoiceType"] = []trow{
		{name: "a tagged alternative", when: []string{tagged}, ret: []string{goLit("asn1.RawValue")}, eff: []string{`require "encoding/asn1"`}},
		{name: "a single alternative", when: []string{"(len(" + alts + ") == 1)"}, ret: []string{"body(ctx, " + alts + "[0].Type, set)"}, eff: []string{"body(" + alts + "[0].Type, set)"}},
		{name: "several alternatives", ret: []string{goAny}},
	}
	propsOf := map[string]map[string]string{
		"TypeReference": {"": "C13", "ret": "C13 C18 C19", "error": "C14 C19", "require": "C17", "set": "C20", "body": "C19"},
		"ChoiceType":    {"": "C22", "error": "C14 C22", "require": "C17", "set": "C20"},
		"TaggedType":    {"": "C13", "set": "C20", "error": "C14", "require": "C17", "ret": "C13 C20"},
	}
	propsOf["ConstraintedType"] = propsOf["TaggedType"]
	propsOf["SequenceOfType"] = propsOf["TaggedType"]
	std := map[string]string{"": "C13", "set": "C20", "error": "C13 C14", "require": "C17"}
	for _, k := range pr.implementers("", typeT) {
		n := typeName(k)
		is := "is[asn1go." + n + "](t)"
		var mine []tpath
		var full []*Outcome
		for i, p := range paths {
			if compatible(outs[i].Lits(), "t", k) {
				mine = append(mine, p)
				full = append(full, &outs[i])
			}
		}
		switch n {
		case "TaggedType", "ConstraintedType":
			if unwrapped {
				r.check("C13 C20", RULE, n, "seen through", g.body.Pos(), true, "")
				continue
			}
		case "SequenceType", "SetType":
			g.structs(r, n, is, mine, full)
			continue
		}
		rows, ok := rowsOf[n]
		props := propsOf[n]
		if !ok {
			// no representation
			rows = []trow{{name: "is reported", eff: []string{"error", "*"}}}
			props = map[string]string{"": "C13 C14"}
		}
		if props == nil {
			props = std
		}
		r.decide(&table{props: props, rule: RULE, subject: n, paths: mine, rows: rows, kinds: map[string]string{"t": "Type"}, given: []string{is}, pos: g.body.Pos()})
	}
	for n := range rowsOf {
		r.check("C13", RULE, n, "exists", token.NoPos, pr.typ("", n) != nil, "kind of type was not found")
	}
}

// bareOnly: is sym used for nothing but removing its wrappers.
func bareOnly(outs []Outcome, sym string) bool {
	some := false
	var walk func(t *Term) bool
	memo := map[*Term]bool{}
	walk = func(t *Term) bool {
		if v, ok := memo[t]; ok {
			return v
		}
		memo[t] = true
		if t.Op == OpSym && t.Name == sym {
			memo[t] = false
			return false
		}
		if t.Op == OpCall && t.Name == "fix" && t.String() == "bare("+sym+")" {
			some = true
			return true
		}
		if t.Op == OpFmt || t.Op == OpCall && strings.HasPrefix(t.Name, "fmt.") {
			return true // texts of errors
		}
		for _, a := range t.Args {
			if !walk(a) {
				memo[t] = false
				return false
			}
		}
		return true
	}
	var events func(es []Event) bool
	lits := func(ls []*Term) bool {
		for _, l := range ls {
			if !walk(l) {
				return false
			}
		}
		return true
	}
	events = func(es []Event) bool {
		for _, e := range es {
			if !lits(e.Args) {
				return false
			}
			if e.Loop == nil {
				continue
			}
			for _, ps := range [][]LoopPath{e.Loop.Back, e.Loop.Exits} {
				for i := range ps {
					if !lits(ps[i].Lits) || !events(ps[i].Events) {
						return false
					}
				}
			}
		}
		return true
	}
	for i := range outs {
		o := &outs[i]
		for k := range o.Results {
			if !walk(o.Result(k)) {
				return false
			}
		}
		if !lits(o.Lits()) || !events(o.St.events) {
			return false
		}
	}
	return some
}

// compatible: can all conditions hold if sym is of type k.
func compatible(lits []*Term, sym string, k types.Type) bool {
	for _, l := range lits {
		neg := false
		for l.Op == OpNot {
			neg = !neg
			l = l.Args[0]
		}
		if l.Op == OpIsType && l.Args[0].String() == sym && !isIface(l.Typ) {
			if types.Identical(l.Typ, k) == neg {
				return false
			}
		}
		if l.Op == OpBin && l.Name == "==" && l.Args[0].String() == sym && l.Args[1].Op == OpNil && !neg {
			return false
		}
	}
	return true
}

// part gives a field of a composite value, seen through pointers and interfaces.
func part(t *Term, field string) *Term {
	for t != nil && (t.Op == OpIface || t.Op == OpPtr) {
		t = t.Args[0]
	}
	if t != nil && t.Op == OpStruct {
		if i := fieldIndex(t.Typ, field); i >= 0 {
			return t.Args[i]
		}
	}
	return nil
}

// shell renders a composite value without one of its fields.
func typeOfValue(t *Term) string {
	for t != nil && (t.Op == OpIface || t.Op == OpPtr) {
		t = t.Args[0]
	}
	if t != nil && t.Op == OpStruct {
		return shortType(t.Typ)
	}
	return ""
}

// structs decides the translation of SEQUENCE and SET.
func (g *gen) structs(r *Report, n, is string, paths []tpath, outs []*Outcome) {
	const RULE = "struct"
	all := "C13 C14 C15 C16 C18 C20"
	pos := g.body.Pos()
	if !r.check(all, RULE, n, "one way", pos, len(outs) >= 1, "%d ways through the code", len(outs)) {
		return
	}
	for i, o := range outs {
		res := o.Result(0)
		fields := part(res, "Fields")
		list := part(fields, "List")
		ok := typeOfValue(res) == "ast.StructType" && list != nil
		if !r.check("C13 C15", RULE, n, "is a struct", pos, ok, "result is %s", res) {
			continue
		}
		// result has nothing but fields, in order of components and additions
		var overs []string
		for _, s := range segs(list) {
			if s.Op == OpSpread && s.Args[0].Op == OpFlatMap {
				for _, x := range segs(s.Args[0].Args[0]) {
					if x.Op == OpSpread {
						overs = append(overs, x.Args[0].String())
					} else {
						overs = append(overs, x.String())
					}
				}
			} else {
				overs = append(overs, s.String())
			}
		}
		want := []string{"t.(asn1go." + n + ").Components", "t.(asn1go." + n + ").ExtensionAdditions"}
		r.check("C15", RULE, n, "fields of components, then of additions", pos, strings.Join(overs, "; ") == strings.Join(want, "; "), "fields come from %q instead of %q", overs, want)
		// SET flag
		set := false
		for _, e := range paths[i].eff {
			if e == "set" {
				set = true
			}
			if !strings.HasPrefix(e, "loop ") && e != "set" {
				p := "C13 C15"
				if e == "error" {
					p = "C14"
				} else if strings.HasPrefix(e, "require") {
					p = "C17"
				}
				r.check(p, RULE, n, "does nothing else", pos, false, "does %q", e)
			}
		}
		r.check("C20", RULE, n, "SET flag", pos, set == (n == "SetType"), "flag that it is a SET: %v", set)
		// fields
		for _, s := range segs(list) {
			if s.Op != OpSpread || s.Args[0].Op != OpFlatMap {
				continue
			}
			fm := s.Args[0]
			over := fm.Args[0].String()
			loops := 0
			for _, l := range loopsOf(o.St.events) {
				if l.Over == nil || l.Over.String() != over {
					continue
				}
				isField := func(t *Term) bool { return typeOfValue(t) == "ast.Field" }
				acc := accumulator(l, isField)
				if acc == "" {
					continue
				}
				loops++
				ps, _ := g.iterations(l, "x", acc, nil)
				for k := range ps {
					p := &ps[k]
					if p.term == nil {
						continue
					}
					ss := segs(p.term)
					p.ret = fmt.Sprint(len(ss), " fields")
					for _, f := range ss {
						if f.Op != OpElem {
							p.eff = append(p.eff, "name several")
							continue
						}
						e := f.Args[0]
						p.eff = append(p.eff, "name "+part(e, "Names").String(), "type "+goText(part(e, "Type")), "tag "+part(e, "Tag").String())
						if c := part(e, "Comment"); c != nil && !isZeroTerm(c) {
							p.eff = append(p.eff, "other comment")
						}
					}
				}
				c := "x.(asn1go.NamedComponentType)"
				b := "body(ctx, " + c + ".NamedType.Type, &false)"
				t := "tag(ctx, " + c + ")"
				r.decide(&table{props: map[string]string{"": "C15", "name": "C15 C18", "type": "C13 C15", "body": "C13 C15", "tag": "C15 C16", "error": "C14"}, rule: RULE, subject: n + " " + over[strings.LastIndex(over, ".")+1:],
					paths: ps, kinds: map[string]string{"x": "ComponentType"}, notNil: map[string]bool{"x": true}, pos: pos,
					rows: []trow{
						{name: "named component", when: []string{"is[asn1go.NamedComponentType](x)"}, ret: []string{"1 fields"},
							eff: []string{"name [&ast.Ident{Name: goify(" + c + ".NamedType.Identifier)}]", "type " + b, "tag " + t, "body(" + c + ".NamedType.Type, &false)", "tag(" + c + ")"}},
						{name: "COMPONENTS OF", when: []string{"is[asn1go.ComponentsOfComponentType](x)"}, eff: []string{"error", "*"}},
					}})
			}
			r.check("C14 C15", RULE, n, "loop over "+over, pos, loops == 1, "%d loops over %s give fields", loops, over)
		}
	}
}

// runTags decides struct tags.
func runTags(pr *Program, r *Report) {
	g := needGen(pr)
	const RULE, SUBJ = "tag", "struct tag"
	outs, err := g.run(g.interp(), g.tag, map[string]string{"NamedComponentType": "c"})
	if err != nil {
		panic(undecided{err.Error()})
	}
	r.used("C14 C16", g.tag, len(outs))
	pos := g.tag.Pos()
	// the loop that removes tags and constraints: its variable starts with the type of the component
	var walk *LoopInfo
	for i := range outs {
		for _, l := range loopsOf(outs[i].St.events) {
			for _, v := range l.Phis {
				if v.String() == "c.NamedType.Type" {
					walk = l
				}
			}
		}
	}
	if !r.check("C14 C16", RULE, SUBJ, "loop", pos, walk != nil, "no loop over tags and constraints of the component's type was found") {
		return
	}
	find := func(l *LoopInfo) (x, parts string) {
		for n, v := range l.Phis {
			if v.String() == "c.NamedType.Type" {
				x = n
			}
		}
		for n, v := range l.Phis {
			if v.Op == OpList {
				for i := range l.Back {
					if w := l.Back[i].Phis[n]; w != nil && w.Op == OpList {
						for _, s := range w.Args {
							if s.Op == OpElem && isStringTerm(s.Args[0]) {
								parts = n
							}
						}
					}
				}
			}
		}
		return
	}
	// what the result consists of
	var ps []tpath
	for i := range outs {
		o := &outs[i]
		var l *LoopInfo
		for _, c := range loopsOf(o.St.events) {
			if x, _ := find(c); x != "" {
				if l != nil {
					r.check("C14 C16", RULE, SUBJ, "one loop", pos, false, "two loops over tags")
					return
				}
				l = c
			}
		}
		if l == nil {
			r.check("C14 C16", RULE, SUBJ, "always looks for tags", pos, false, "way without looking for tags: %s", o.String())
			continue
		}
		x, parts := find(l)
		if parts == "" {
			r.check("C16", RULE, SUBJ, "collects parts in a list", pos, false, "list of the parts of the tag was not found")
			return
		}
		m := map[*Term]*Term{symByNameOr(x): tSymT("x", typeOfSym(x)), symByNameOr(parts): tSym("parts")}
		memo := map[*Term]*Term{}
		p := tpath{}
		for _, c := range o.Lits() {
			c = subst(c, m, memo)
			if anyTerm(c, func(t *Term) bool { return t.Op == OpSym && t.Name == "parts" }) {
				continue // emptiness, judged below
			}
			p.lits = append(p.lits, c)
		}
		for _, e := range g.effects(o.St.events) {
			if !strings.HasPrefix(e, "loop ") {
				p.eff = append(p.eff, e)
			}
		}
		add := func(list *Term) {
			for _, s := range segs(list) {
				if s.Op == OpElem {
					p.eff = append(p.eff, "part "+s.Args[0].String())
				} else if s.Args[0].String() != "parts" {
					p.eff = append(p.eff, "part unknown "+s.String())
				}
			}
		}
		add(l.Phis[parts])
		// the list that is made into the tag
		res := subst(o.Result(0), m, memo)
		if res.Op == OpNil {
			empty := false
			for _, c := range o.Lits() {
				c = subst(c, m, memo)
				if c.Op == OpBin && c.Name == "==" && c.Args[0].Op == OpLen && c.Args[1] == tInt(0) && mentions(c, "parts") {
					empty = true
					add(c.Args[0].Args[0])
				}
			}
			p.ret = "no tag of empty list"
			if !empty {
				p.ret = "no tag of non-empty list"
			}
		} else {
			v := part(res, "Value")
			k := part(res, "Kind")
			var list *Term
			if v != nil && v.Op == OpConcat && len(v.Args) == 3 {
				if a, _ := v.Args[0].strVal(); a == "`asn1:\"" {
					if b, _ := v.Args[2].strVal(); b == "\"`" {
						if j := v.Args[1]; j.Op == OpCall && j.Name == "strings.Join" && j.Args[1] == tStr(",") {
							list = j.Args[0]
						}
					}
				}
			}
			if list == nil || k == nil || !mentions(list, "parts") {
				p.ret = "malformed tag " + res.String()
			} else {
				add(list)
				p.ret = "tag"
				nonEmpty := false
				for _, s := range segs(list) {
					if s.Op == OpElem {
						nonEmpty = true
					}
				}
				for _, c := range o.Lits() {
					if c.Op == OpNot {
						c = subst(c.Args[0], m, memo)
						if c.Op == OpBin && c.Name == "==" && c.Args[0].Op == OpLen && c.Args[1] == tInt(0) && mentions(c, "parts") {
							nonEmpty = true
						}
					}
				}
				if !nonEmpty {
					p.ret = "tag, even of empty list"
				}
			}
		}
		ps = append(ps, p)
	}
	okRet := []string{"tag", "no tag of empty list"}
	// rows: options times kind
	type opt struct {
		when  []string
		parts []string
		name  string
	}
	num := "is[asn1go.Number](*c.Default)"
	opts := []opt{
		{[]string{"(c.Default == nil)", "c.IsOptional"}, []string{`part "optional"`}, "OPTIONAL"},
		{[]string{"(c.Default == nil)"}, nil, "mandatory"},
		{[]string{num}, []string{`part "optional"`, `part "default:" + fmt(dec, *c.Default.(asn1go.Number))`}, "DEFAULT number"},
		{nil, []string{`part "optional"`}, "DEFAULT of other kind"},
	}
	ct := func(n string) string { return pr.konst("", n).String() }
	lex := func(x, name string) []string {
		return []string{"is[asn1go.RestrictedStringType](" + x + ")", "(" + x + ".(asn1go.RestrictedStringType).LexType == " + ct(name) + ")"}
	}
	L := "leaf(ctx, x.(asn1go.TypeReference))"
	R := "bare(" + L + ".Type)"
	isRef := "is[asn1go.TypeReference](x)"
	kinds := []opt{
		{lex("x", "IA5String"), []string{`part "ia5"`}, "IA5String"},
		{lex("x", "UTF8String"), []string{`part "utf8"`}, "UTF8String"},
		{lex("x", "NumericString"), []string{`part "numeric"`}, "NumericString"},
		{[]string{"is[asn1go.SetType](x)"}, []string{`part "set"`}, "SET"},
		{[]string{"is[asn1go.SetOfType](x)"}, []string{`part "set"`}, "SET OF"},
		{append([]string{isRef}, lex(R, "IA5String")...), []string{`part "ia5"`}, "reference to IA5String"},
		{append([]string{isRef}, lex(R, "UTF8String")...), []string{`part "utf8"`}, "reference to UTF8String"},
		{append([]string{isRef}, lex(R, "NumericString")...), []string{`part "numeric"`}, "reference to NumericString"},
		{[]string{isRef, "(" + L + ".Type == nil)", "(" + L + `.TypeReference == "GeneralizedTime")`}, []string{`part "generalized"`}, "GeneralizedTime"},
		{[]string{isRef, "(" + L + ".Type == nil)", "(" + L + `.TypeReference == "UTCTime")`}, []string{`part "utc"`}, "UTCTime"},
	}
	var rows []trow
	rows = append(rows, trow{name: "tags are removed", when: []string{"is[asn1go.TaggedType](x)"}, never: true},
		trow{name: "constraints are removed", when: []string{"is[asn1go.ConstraintedType](x)"}, never: true},
		trow{when: []string{isRef, "(" + L + `.TypeReference == "GeneralizedTime")`, "!(" + L + ".Type == nil)"}, free: true},
		trow{when: []string{isRef, "(" + L + `.TypeReference == "UTCTime")`, "!(" + L + ".Type == nil)"}, free: true})
	for _, o := range opts {
		for _, k := range append(kinds, opt{nil, nil, "other type"}) {
			rows = append(rows, trow{name: o.name + ", " + k.name, when: append(append([]string{}, o.when...), k.when...), ret: okRet, eff: append(append([]string{}, o.parts...), k.parts...)})
		}
	}
	r.decide(&table{props: map[string]string{"": "C16", "error": "C14"}, rule: RULE, subject: SUBJ, paths: ps, rows: rows, kinds: map[string]string{"x": "Type"}, notNil: map[string]bool{"x": true}, pos: pos})

	// iterations
	l := walk
	x, parts := find(l)
	xs := symByNameOr(x)
	m := map[*Term]*Term{xs: tSymT("x", typeOfSym(x)), symByNameOr(parts): tSym("parts")}
	// states of flags: before and after a tag was met
	first := map[string]bool{}
	if len(l.States) > 0 {
		first[l.States[0].Key] = true
	}
	isTagged := func(b *LoopPath) bool { return hasPos(b.Lits, "is[asn1go.TaggedType]("+x+")") }
	erring := func(b *LoopPath) bool {
		for _, e := range g.effects(b.Events) {
			if e == "error" {
				return true
			}
		}
		return false
	}
	for again := true; again; {
		again = false
		for i := range l.Back {
			b := &l.Back[i]
			if first[b.From] && !isTagged(b) && !first[b.To] {
				first[b.To] = true
				again = true
			}
		}
	}
	var fp, sp []tpath
	for i := range l.Back {
		b := &l.Back[i]
		memo := map[*Term]*Term{}
		p := tpath{}
		for _, c := range b.Lits {
			p.lits = append(p.lits, subst(c, m, memo))
		}
		p.eff = g.effectsIn(b.Events, m)
		v := subst(normList(b.Phis[parts]), m, memo)
		ss := segs(v)
		if len(ss) == 0 || ss[0].Op != OpSpread || ss[0].Args[0].String() != "parts" {
			p.eff = append(p.eff, "part lost")
		} else {
			for _, s := range ss[1:] {
				p.eff = append(p.eff, "part "+s.String())
			}
		}
		p.ret = subst(b.Phis[x], m, memo).String()
		if first[b.From] {
			fp = append(fp, p)
			if isTagged(b) && !erring(b) {
				r.check("C14 C16", RULE, SUBJ, "a tag is remembered", pos, !first[b.To], "after a tag the state is as before it, so a second one would go unnoticed")
			}
		} else {
			sp = append(sp, p)
		}
	}
	tg := "x.(asn1go.TaggedType)"
	cls := func(n string) string { return "(" + tg + ".Tag.Class == " + ct(n) + ")" }
	mode := func(n string) string { return "(" + tg + ".TagType == " + ct(n) + ")" }
	def := func(n string) string { return "($1.TagDefault == " + ct(n) + ")" }
	has := tg + ".HasTagType"
	isT := "is[asn1go.TaggedType](x)"
	number := "is[asn1go.Number](" + tg + ".Tag.ClassNumber)"
	errRow := func(name string, when ...string) trow {
		return trow{name: name, when: append([]string{isT}, when...), eff: []string{"error", "*"}}
	}
	constr := trow{name: "constraint", when: []string{"is[asn1go.ConstraintedType](x)"}, ret: []string{"x.(asn1go.ConstraintedType).Type"}}
	rows = []trow{constr,
		errRow("universal", cls("CLASS_UNIVERSAL")),
		errRow("number is not plain", "!"+number),
		errRow("automatic by keyword", has, mode("TAGS_AUTOMATIC")),
		errRow("automatic by default", "!"+has, def("TAGS_AUTOMATIC")),
	}
	tagPart := `part "tag:" + fmt(dec, ` + tg + `.Tag.ClassNumber.(asn1go.Number))`
	for _, c := range []opt{{[]string{cls("CLASS_APPLICATION")}, []string{`part "application"`}, "application"}, {[]string{cls("CLASS_PRIVATE")}, []string{`part "private"`}, "private"}, {[]string{cls("CLASS_CONTEXT_SPECIFIC")}, nil, "context specific"}} {
		for _, e := range []opt{{[]string{has, mode("TAGS_EXPLICIT")}, []string{`part "explicit"`}, "explicit by keyword"}, {[]string{has, mode("TAGS_IMPLICIT")}, nil, "implicit by keyword"},
			{[]string{"!" + has, def("TAGS_EXPLICIT")}, []string{`part "explicit"`}, "explicit by default"}, {[]string{"!" + has, def("TAGS_IMPLICIT")}, nil, "implicit by default"}} {
			rows = append(rows, trow{name: c.name + ", " + e.name, when: append(append([]string{isT}, c.when...), e.when...), ret: []string{tg + ".Type"}, eff: append(append([]string{tagPart}, c.parts...), e.parts...)})
		}
	}
	rows = append(rows, trow{when: []string{isT}, free: true}, trow{name: "goes on only at tags and constraints", never: true})
	props := map[string]string{"": "C16", "error": "C14 C16"}
	kk := map[string]string{"x": "Type"}
	nn := map[string]bool{"x": true}
	r.decide(&table{props: props, rule: RULE, subject: "first tag", paths: fp, rows: rows, kinds: kk, notNil: nn, pos: pos})
	r.decide(&table{props: props, rule: RULE, subject: "further tag", paths: sp, rows: []trow{constr, {name: "is reported", when: []string{isT}, eff: []string{"error", "*"}}, {name: "goes on only at tags and constraints", never: true}}, kinds: kk, notNil: nn, pos: pos})
}

func hasPos(ls []*Term, s string) bool {
	for _, l := range ls {
		if l.String() == s {
			return true
		}
	}
	return false
}

func mentions(t *Term, sym string) bool {
	return anyTerm(t, func(x *Term) bool { return x.Op == OpSym && x.Name == sym })
}

func isStringTerm(t *Term) bool {
	if _, ok := t.strVal(); ok {
		return true
	}
	return t.Op == OpConcat
}

func symByNameOr(n string) *Term {
	if s := symByName[n]; s != nil {
		return s
	}
	return tSym(n)
}

func typeOfSym(n string) types.Type {
	if s := symByName[n]; s != nil {
		return s.Type
	}
	return nil
}

// runRefs decides resolution of references and the test for tagged alternatives.
func runRefs(pr *Program, r *Report) {
	g := needGen(pr)
	// references
	const RULE = "reference"
	outs, err := g.run(g.interp(), g.leaf, map[string]string{"TypeReference": "ref"})
	if err != nil {
		panic(undecided{err.Error()})
	}
	r.used("C19", g.leaf, len(outs))
	pos := g.leaf.Pos()
	var loop *LoopInfo
	var ps []tpath
	x, vis := "", ""
	prep := func(l *LoopInfo) map[*Term]*Term {
		m := map[*Term]*Term{}
		x, vis = "", ""
		for n, v := range l.Phis {
			if v.String() == "ref" {
				x = n
				m[symByNameOr(n)] = tSymT("x", typeOfSym(n))
			}
		}
		for n, v := range l.Phis {
			if n != x && v.Op == OpMap {
				vis = n
			}
		}
		// a list will do as well
		for n, v := range l.Phis {
			if n != x && x != "" && vis == "" && (v.Op == OpNil || v.Op == OpList && len(v.Args) == 0) {
				if s, ok := symByNameOr(n).Type.(*types.Slice); ok && types.Identical(s.Elem(), typeOfSym(x)) {
					vis = n
				}
			}
		}
		if vis != "" {
			m[symByNameOr(vis)] = tSym("visited")
		}
		return m
	}
	list := "$1.ModuleBody.AssignmentList"
	byValue := false
	for i := range outs {
		o := &outs[i]
		ls := loopsOf(o.St.events)
		if len(ls) != 1 {
			r.check("C02 C19", RULE, "leaf", "one loop", pos, false, "way with %d loops", len(ls))
			continue
		}
		loop = ls[0]
		m := prep(loop)
		memo := map[*Term]*Term{}
		p := tpath{}
		for _, c := range o.Lits() {
			p.lits = append(p.lits, visitedLit(subst(c, m, memo), &byValue))
		}
		p.ret = subst(o.Result(0), m, memo).String()
		for _, e := range g.effects(o.St.events) {
			p.eff = append(p.eff, e)
		}
		ps = append(ps, p)
	}
	if !r.check("C02 C19", RULE, "leaf", "follows references", pos, loop != nil && x != "", "loop over references was not found") {
		return
	}
	found := "found(" + list + ", x)"
	assg := "lookup(" + list + ", x)"
	ta := assg + ".(asn1go.TypeAssignment)"
	isTA := "is[asn1go.TypeAssignment](" + assg + ")"
	isRef := "is[asn1go.TypeReference](bare(" + ta + ".Type))"
	none := "asn1go.TypeAssignment{TypeReference: x}"
	r.decide(&table{props: map[string]string{"": "C19", "error": "C19"}, rule: RULE, subject: "end of a chain", paths: ps, pos: pos, rows: []trow{
		{name: "met before", when: []string{"visited"}, ret: []string{none}},
		{name: "not defined", when: []string{"!" + found}, ret: []string{none}},
		{name: "not a type", when: []string{"!" + isTA}, ret: []string{none}},
		{name: "reference", when: []string{isRef}, never: true},
		{name: "definition", ret: []string{ta}},
	}})
	m := prep(loop)
	var bp []tpath
	for i := range loop.Back {
		b := &loop.Back[i]
		memo := map[*Term]*Term{}
		p := tpath{eff: g.effectsIn(b.Events, m)}
		for _, c := range b.Lits {
			p.lits = append(p.lits, visitedLit(subst(c, m, memo), &byValue))
		}
		p.ret = subst(b.Phis[x], m, memo).String()
		if vis != "" {
			e := "other update of what was visited"
			v := subst(b.Phis[vis], m, memo)
			if v.Op == OpWith && len(v.Args) == 3 && v.Args[0].String() == "visited" {
				e = "visited"
				if yes, known := v.Args[2].boolVal(); v.Args[1].String() == "x" {
					e = "visited x"
					if byValue && !(known && yes) {
						e = "not visited x"
					}
				}
			} else if ss := segs(v); len(ss) > 0 && ss[0].Op == OpSpread && ss[0].Args[0].String() == "visited" {
				e = "visited"
				for _, s := range ss[1:] {
					if s.Op == OpElem && s.Args[0].String() == "x" {
						e = "visited x"
					}
				}
			} else if mentions(v, "visited") {
				e = "visited " + v.String()
			}
			p.eff = append(p.eff, e)
		}
		bp = append(bp, p)
	}
	r.decide(&table{props: map[string]string{"": "C19"}, rule: RULE, subject: "step of a chain", paths: bp, pos: pos, rows: []trow{
		{name: "met before", when: []string{"visited"}, never: true},
		{name: "not defined", when: []string{"!" + found}, never: true},
		{name: "not a type", when: []string{"!" + isTA}, never: true},
		{name: "reference", when: []string{isRef}, ret: []string{"bare(" + ta + ".Type).(asn1go.TypeReference)"}, eff: []string{"visited x"}},
		{name: "definition", never: true},
	}})

	// a chain ends: names are followed once
	for i := range bp {
		marks, fresh := false, false
		for _, e := range bp[i].eff {
			marks = marks || e == "visited x"
		}
		for _, l := range bp[i].lits {
			fresh = fresh || litText(l) == "!visited"
		}
		r.check("C02", RULE, "chain ends", fmt.Sprintf("step %d", i), pos, marks && fresh, "a name that was followed before may be followed again")
	}

	// tagged alternatives
	in := g.interp()
	delete(in.handler, g.tagged)
	in.opaque[g.tagged] = true
	touts, err := g.run(in, g.tagged, map[string]string{"Type": "t", "Identifier": "name"})
	if err != nil {
		panic(undecided{err.Error()})
	}
	r.used("C22", g.tagged, len(touts))
	tpos := g.tagged.Pos()
	call := func(x string) []string {
		var args []string
		for _, p := range g.tagged.Params {
			t := p.Type()
			switch {
			case isIface(t):
				args = append(args, x)
			case isNamed(t, pr.pkg("").Pkg.Path(), "Identifier"):
				args = append(args, "name")
			default:
				args = append(args, "ctx")
			}
		}
		return []string{"tagged(" + strings.Join(args, ", ") + ")"}
	}
	T := "t.(asn1go.TypeReference)"
	L := "leaf(ctx, " + T + ")"
	tl := "lookup(" + list + ", " + T + ")"
	var tps []tpath
	steps := map[*LoopInfo]bool{}
	for i := range touts {
		o := &touts[i]
		m := map[*Term]*Term{}
		var loop *LoopInfo
		sym := ""
		for _, l := range loopsOf(o.St.events) {
			for n, v := range l.Phis {
				if v.String() == "t" {
					loop, sym = l, n
					m[symByNameOr(n)] = tSymT("t", typeOfSym(n))
				}
			}
		}
		if loop == nil {
			tps = append(tps, g.paths(touts[i:i+1])...)
			continue
		}
		// a loop that goes on with a type is a call for it
		for n := range loop.Phis {
			if n == sym {
				continue
			}
			for k := range loop.Back {
				if v := loop.Back[k].Phis[n]; v == nil || v.String() != n {
					r.check("C22", "tagged", "alternative", "nothing but the type changes", tpos, false, "the loop over types changes %s too", n)
				}
			}
		}
		memo := map[*Term]*Term{}
		p := tpath{ret: subst(o.Result(0), m, memo).String()}
		for _, c := range o.Lits() {
			p.lits = append(p.lits, subst(c, m, memo))
		}
		for _, e := range g.effectsIn(o.St.events, m) {
			if !strings.HasPrefix(e, "loop ") {
				p.eff = append(p.eff, e)
			}
		}
		tps = append(tps, p)
		if steps[loop] {
			continue
		}
		steps[loop] = true
		for k := range loop.Back {
			b := &loop.Back[k]
			memo := map[*Term]*Term{}
			p := tpath{ret: call(subst(b.Phis[sym], m, memo).String())[0], eff: g.effectsIn(b.Events, m)}
			for _, c := range b.Lits {
				p.lits = append(p.lits, subst(c, m, memo))
			}
			tps = append(tps, p)
		}
	}
	for i := range tps {
		var calls []string
		if strings.HasPrefix(tps[i].ret, "tagged(") {
			calls = append(calls, tps[i].ret)
		}
		for _, e := range tps[i].eff {
			if strings.HasPrefix(e, "other call tagged(") {
				calls = append(calls, strings.TrimPrefix(e, "other call "))
			}
		}
		has := map[string]bool{}
		for _, l := range tps[i].lits {
			has[litText(l)] = true
		}
		for _, c := range calls {
			// a part of the type, where its chain ends, or the next step of a chain that is known to end
			ok := c == call("t.(asn1go.ConstraintedType).Type")[0] || c == call("t.(asn1go.TaggedType).Type")[0] || c == call("bare(t)")[0] && has["!is[asn1go.TypeReference](t)"] || c == call(L + ".Type")[0]
			ok = ok || strings.Contains(c, ", iface[asn1go.") && !strings.Contains(c, "TypeReference") // one that is made here
			if c == call(tl + ".(asn1go.TypeAssignment).Type")[0] {
				for _, n := range []string{"GeneralizedTime", "UTCTime"} {
					ok = ok || has["("+L+".TypeReference == \""+n+"\")"] && has["!("+T+" == \""+n+"\")"]
				}
				ok = ok || has["!("+L+".Type == nil)"]
			}
			r.check("C02", "tagged", "alternative", "ends with "+c, tpos, ok, "the test for tagged alternatives goes on with %s, and nothing says that it ends", c)
		}
	}
	r.check("C02", "tagged", "alternative", "ways", tpos, len(tps) > 0, "no way through the test for tagged alternatives")
	for i := range tps {
		var es []string
		for _, e := range tps[i].eff {
			if !strings.HasPrefix(e, "other call tagged(") {
				es = append(es, e)
			}
		}
		tps[i].eff = es
	}
	r.decide(&table{props: map[string]string{"": "C22", "error": "C14 C19"}, rule: "tagged", subject: "alternative", paths: tps, kinds: map[string]string{"t": "Type"}, pos: tpos, rows: []trow{
		{name: "tagged", when: []string{"is[asn1go.TaggedType](t)"}, ret: []string{"true"}},
		{name: "constraint", when: []string{"is[asn1go.ConstraintedType](t)"}, ret: call("t.(asn1go.ConstraintedType).Type")},
		{name: "other type", when: []string{"!is[asn1go.TypeReference](t)"}, ret: []string{"false"}},
		{name: "GeneralizedTime", when: []string{"(" + T + ` == "GeneralizedTime")`}, ret: []string{"false"}},
		{name: "UTCTime", when: []string{"(" + T + ` == "UTCTime")`}, ret: []string{"false"}},
		{when: []string{"(" + L + ".Type == nil)", "(" + L + `.TypeReference == "GeneralizedTime")`, "!found(" + list + ", " + T + ")"}, free: true},
		{when: []string{"(" + L + ".Type == nil)", "(" + L + `.TypeReference == "UTCTime")`, "!found(" + list + ", " + T + ")"}, free: true},
		{when: []string{"(" + L + ".Type == nil)", "(" + L + `.TypeReference == "GeneralizedTime")`, "!is[asn1go.TypeAssignment](" + tl + ")"}, free: true},
		{when: []string{"(" + L + ".Type == nil)", "(" + L + `.TypeReference == "UTCTime")`, "!is[asn1go.TypeAssignment](" + tl + ")"}, free: true},
		{name: "refers to GeneralizedTime", when: []string{"(" + L + ".Type == nil)", "(" + L + `.TypeReference == "GeneralizedTime")`}, ret: call(tl + ".(asn1go.TypeAssignment).Type")},
		{name: "refers to UTCTime", when: []string{"(" + L + ".Type == nil)", "(" + L + `.TypeReference == "UTCTime")`}, ret: call(tl + ".(asn1go.TypeAssignment).Type")},
		{name: "unresolvable", when: []string{"(" + L + ".Type == nil)"}, eff: []string{"error", "*"}},
		{when: []string{"!found(" + list + ", " + T + ")"}, free: true}, // no definition, yet it was resolved
		{when: []string{"!is[asn1go.TypeAssignment](" + tl + ")"}, free: true},
		{name: "reference", ret: call(tl + ".(asn1go.TypeAssignment).Type")},
	}})
}

func litText(l *Term) string {
	if l.Op == OpNot {
		return "!" + l.Args[0].String()
	}
	return l.String()
}

// visitedLit names the test whether a reference was met before.
// byValue is set when it looks at what is stored there, not only whether something is.
func visitedLit(l *Term, byValue *bool) *Term {
	if l.Op == OpNot {
		return tNot(visitedLit(l.Args[0], byValue))
	}
	if (l.Op == OpLookup || l.Op == OpLookupOk) && l.Args[0].String() == "visited" && l.Args[1].String() == "x" {
		*byValue = *byValue || l.Op == OpLookup
		return tSym("visited")
	}
	if s := l.String(); s == "exists(visited; !((it == x)))" || s == "exists(visited; !((x == it)))" {
		return tSym("visited")
	}
	return l
}

var _ = sort.Strings
var _ *ssa.Function

package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// gen is what the rules about code generation work on: the functions that play a part, found by what they take and give,
// and the state of generation at the point where types are translated.
type gen struct {
	pr      *Program
	ctx     types.Type // struct that collects errors and required packages
	errs    string     // its field of errors
	mods    string     // its field of required packages
	gen     *ssa.Function
	body    *ssa.Function // type -> Go type expression
	tag     *ssa.Function // component -> struct tag
	leaf    *ssa.Function // reference -> assignment it finally refers to
	require *ssa.Function
	tagged  *ssa.Function // is an alternative tagged
	state   *State
	ctxObj  *Term
	outs    []Outcome // of Generate
	bodyAt  []Event
	err     error
}

func isNamed(t types.Type, pkg, name string) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Name() != name {
		return false
	}
	if n.Obj().Pkg() == nil {
		return pkg == ""
	}
	return n.Obj().Pkg().Path() == pkg || n.Obj().Pkg().Name() == pkg
}

// rootFuncs lists functions of the library, without wrappers and closures.
func (pr *Program) rootFuncs() []*ssa.Function {
	var fs []*ssa.Function
	for _, f := range pr.Funcs {
		if f.Pkg == pr.pkg("") && f.Synthetic == "" && f.Parent() == nil && len(f.Blocks) > 0 {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	return fs
}

// callers counts functions that call f directly.
func (pr *Program) callers(f *ssa.Function) int {
	n := 0
	for _, g := range pr.Funcs {
		if g == f {
			continue
		}
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok && c.Common().StaticCallee() == f {
					n++
				}
			}
		}
	}
	return n
}

// recursive: can f be reached from f by static calls.
func (pr *Program) recursive(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function) bool
	walk = func(g *ssa.Function) bool {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				h := c.Common().StaticCallee()
				if h == f {
					return true
				}
				if h != nil && !seen[h] && h.Pkg == f.Pkg {
					seen[h] = true
					if walk(h) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(f)
}

// calledWith: is f called from a function that uses the field, directly or through others.
func (pr *Program) calledWith(f *ssa.Function, field string, deep bool) bool {
	uses := func(g *ssa.Function) bool {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Field:
					if st := structOf(x.X.Type()); st != nil && st.Field(x.Field).Name() == field {
						return true
					}
				case *ssa.FieldAddr:
					if st := structOf(x.X.Type().Underlying().(*types.Pointer).Elem()); st != nil && st.Field(x.Field).Name() == field {
						return true
					}
				}
			}
		}
		return false
	}
	seen := map[*ssa.Function]bool{f: true}
	work := []*ssa.Function{f}
	for len(work) > 0 {
		t := work[0]
		work = work[1:]
		for _, g := range pr.rootFuncs() {
			if seen[g] {
				continue
			}
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					if c, ok := i.(ssa.CallInstruction); ok && c.Common().StaticCallee() == t {
						if uses(g) {
							return true
						}
						if deep && !seen[g] {
							seen[g] = true
							work = append(work, g)
						}
					}
				}
			}
		}
	}
	return false
}

func findGen(pr *Program) *gen {
	if pr.genCache != nil {
		return pr.genCache.(*gen)
	}
	g := &gen{pr: pr}
	pr.genCache = g
	sp := pr.pkg("")
	// context
	for _, n := range sp.Pkg.Scope().Names() {
		tn, ok := sp.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		e, m := "", ""
		for i := 0; i < st.NumFields(); i++ {
			switch types.TypeString(st.Field(i).Type(), nil) {
			case "[]error":
				e = st.Field(i).Name()
			case "[]string":
				m = st.Field(i).Name()
			}
		}
		if e != "" && m != "" {
			g.ctx, g.errs, g.mods = tn.Type(), e, m
		}
	}
	if g.ctx == nil {
		g.err = fmt.Errorf("no struct type with errors and required packages")
		return g
	}
	isCtx := func(t types.Type) bool {
		p, ok := t.(*types.Pointer)
		return ok && types.Identical(p.Elem(), g.ctx)
	}
	typeT := pr.typ("", "Type")
	if it := pr.typ("", "CodeGenerator"); it != nil {
		for _, t := range pr.implementers("", it) {
			g.gen = pr.method("", typeName(t), "Generate")
		}
		if g.gen == nil {
			for _, n := range sp.Pkg.Scope().Names() {
				if tn, ok := sp.Pkg.Scope().Lookup(n).(*types.TypeName); ok && !isIface(tn.Type()) {
					if types.Implements(types.NewPointer(tn.Type()), it.Underlying().(*types.Interface)) {
						g.gen = pr.method("", n, "Generate")
					}
				}
			}
		}
	}
	pick := func(slot **ssa.Function, f *ssa.Function) {
		if *slot == nil || pr.callers(f) > pr.callers(*slot) {
			*slot = f
		}
	}
	var tests []*ssa.Function
	for _, f := range pr.rootFuncs() {
		sig := f.Signature
		hasCtx, hasType, hasRef, hasComp, nstr, n := false, false, false, false, 0, len(f.Params)
		for _, p := range f.Params {
			t := p.Type()
			switch {
			case isCtx(t):
				hasCtx = true
			case typeT != nil && types.Identical(t, typeT):
				hasType = true
			case isNamed(t, sp.Pkg.Path(), "TypeReference"):
				hasRef = true
			case isNamed(t, sp.Pkg.Path(), "NamedComponentType"):
				hasComp = true
			case types.TypeString(t, nil) == "string":
				nstr++
			}
		}
		if !hasCtx {
			continue
		}
		res := sig.Results()
		switch {
		case res.Len() == 0 && nstr == 1 && n == 2:
			pick(&g.require, f)
		case res.Len() >= 1 && hasType && types.TypeString(res.At(0).Type(), nil) == "go/ast.Expr" && pr.recursive(f):
			pick(&g.body, f)
		case res.Len() == 1 && (hasComp || hasType) && types.TypeString(res.At(0).Type(), nil) == "*go/ast.BasicLit":
			pick(&g.tag, f)
		case res.Len() == 1 && hasRef && isNamed(res.At(0).Type(), sp.Pkg.Path(), "TypeAssignment") && !strings.HasPrefix(types.TypeString(res.At(0).Type(), nil), "*"):
			pick(&g.leaf, f)
		case res.Len() == 1 && hasType && types.TypeString(res.At(0).Type(), nil) == "bool" && (pr.recursive(f) || len(pr.loopsOf(f)) > 0):
			tests = append(tests, f)
		}
	}
	// the test for tagged alternatives is used where alternatives are looked at
	for pass := 0; pass < 2 && g.tagged == nil; pass++ {
		for _, f := range tests {
			if len(tests) == 1 || pr.calledWith(f, "AlternativeTypeList", pass == 1) {
				pick(&g.tagged, f)
			}
		}
	}
	for n, f := range map[string]*ssa.Function{"Generate of the code generator": g.gen, "translation of types": g.body, "construction of struct tags": g.tag,
		"resolution of references": g.leaf, "requirement of packages": g.require, "test for tagged alternatives": g.tagged} {
		if f == nil {
			g.err = fmt.Errorf("function not found: %s", n)
			return g
		}
	}
	pr.roles[g.body], pr.roles[g.tag], pr.roles[g.leaf], pr.roles[g.require], pr.roles[g.tagged] = "body", "tag", "leaf", "require", "tagged"
	in := g.interp()
	in.handler[g.body] = func(in *Interp, st *State, args []*Term) (*Term, bool) {
		if g.state == nil {
			for _, a := range args {
				if a.Op == OpObj && st.heap[a.Obj] != nil && types.Identical(st.heap[a.Obj].typ, g.ctx) {
					g.ctxObj = a
					g.state = st.clone()
				}
			}
		}
		return nil, false
	}
	outs, err := in.runDefault(g.gen)
	if err != nil {
		g.err = err
		return g
	}
	if g.state == nil {
		g.err = fmt.Errorf("Generate never translates a type")
		return g
	}
	g.outs = outs
	s := g.state
	s.lits, s.implied, s.events = nil, nil, nil
	s.litSet, s.eq, s.dom = map[*Term]bool{}, map[*Term]*Term{}, map[*Term]runeSet{}
	return g
}

// interp gives an interpreter that does not look into the functions that have a role.
func (g *gen) interp() *Interp {
	in := newInterp(g.pr)
	for _, f := range []*ssa.Function{g.body, g.tag, g.leaf, g.require} {
		in.opaque[f] = true
	}
	in.named = map[string]*Term{types.TypeString(g.ctx, nil): tSym("ctx")}
	in.handler[g.tagged] = func(in *Interp, st *State, args []*Term) (*Term, bool) {
		for i, p := range g.tagged.Params {
			if isIface(p.Type()) {
				return mk(Term{Op: OpCall, Name: "tagged", Args: []*Term{args[i]}}), true
			}
		}
		return nil, false
	}
	return in
}

// run interprets a function of the generator from the state in which Generate uses it.
// Parameters are named after their types: t for a type, set for the pointer to a flag, otherwise as given.
func (g *gen) run(in *Interp, f *ssa.Function, names map[string]string) ([]Outcome, error) {
	var args []*Term
	in.ptrParams = map[*Term]bool{}
	for i, p := range f.Params {
		t := p.Type()
		if pt, ok := t.(*types.Pointer); ok {
			if types.Identical(pt.Elem(), g.ctx) {
				args = append(args, g.ctxObj)
				continue
			}
			if types.TypeString(pt.Elem(), nil) == "bool" {
				a := tSymT("set", t)
				in.ptrParams[a] = true
				args = append(args, a)
				continue
			}
		}
		n := names[typeName(t)]
		if n == "" {
			n = fmt.Sprintf("$%d", i)
		}
		args = append(args, tSymT(n, t))
	}
	return in.Run(f, args, g.state.clone())
}

// effects names what a path does.
func (g *gen) effects(es []Event) []string {
	m := map[string]bool{}
	for _, e := range es {
		for _, s := range g.effect(e) {
			m[s] = true
		}
	}
	var xs []string
	for s := range m {
		xs = append(xs, s)
	}
	sort.Strings(xs)
	return xs
}

func (g *gen) effect(e Event) []string {
	tail := func(from int) string {
		var xs []string
		for _, a := range e.Args[from:] {
			xs = append(xs, a.String())
		}
		return "(" + strings.Join(xs, ", ") + ")"
	}
	switch e.Kind {
	case "panicsite":
		return nil
	case "append":
		if e.Name == g.errs {
			return []string{"error"}
		}
	case "store":
		if len(e.Args) == 2 && e.Args[0].String() == "set" && e.Args[1] == tBool(true) {
			return []string{"set"}
		}
	case "call":
		switch e.Name {
		case "leaf":
			return nil
		case "require":
			return []string{"require " + e.Args[len(e.Args)-1].String()}
		case "body", "tag":
			return []string{e.Name + tail(1)}
		}
	case "loop":
		var xs []string
		m := map[string]bool{}
		for _, b := range e.Loop.Back {
			for _, x := range g.effects(b.Events) {
				if !m[x] {
					m[x] = true
					xs = append(xs, "loop "+x)
				}
			}
		}
		return xs
	}
	return []string{"other " + e.String()}
}

// loops lists the loops a path goes through.
func loopsOf(es []Event) []*LoopInfo {
	var ls []*LoopInfo
	for _, e := range es {
		if e.Loop != nil {
			ls = append(ls, e.Loop)
		}
	}
	return ls
}

// iterations gives the paths through the body of a loop over a list, the element being called name.
// The result of a path is what it adds to the list variable accum, or nothing.
func (g *gen) iterations(l *LoopInfo, name, accum string, outer map[*Term]*Term) ([]tpath, map[*Term]*Term) {
	m := map[*Term]*Term{}
	for k, v := range outer {
		m[k] = v
	}
	memo := map[*Term]*Term{}
	elem := subst(l.Elem, m, memo)
	m2 := map[*Term]*Term{}
	for k, v := range m {
		m2[k] = v
	}
	x := tSymT(name, l.Elem.Type)
	m2[l.Elem] = x
	m2[elem] = x
	idx := l.Elem.Args[1]
	var ps []tpath
	for i := range l.Back {
		b := &l.Back[i]
		memo := map[*Term]*Term{}
		p := tpath{}
		for _, c := range b.Lits {
			if c.Op == OpBin && c.Name == "<" && c.Args[0] == idx {
				continue
			}
			p.lits = append(p.lits, subst(c, m2, memo))
		}
		p.eff = g.effectsIn(b.Events, m2)
		if accum != "" {
			if v, ok := b.Phis[accum]; ok {
				v = normList(v)
				if len(v.Args) > 0 && v.Args[0].Op == OpSpread && v.Args[0].Args[0].String() == accum {
					p.term = subst(tList(v.Args[1:]...), m2, memo)
					p.ret = p.term.String()
				} else {
					p.ret = "replaced by " + v.String()
				}
			}
		}
		p.back = b
		ps = append(ps, p)
	}
	return ps, m2
}

// accumulator finds the loop variable that becomes the list fm describes: its cases are what the iterations add to it.
func accumulator(l *LoopInfo, isOne func(t *Term) bool) string {
	var names []string
	for n := range l.Phis {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		for _, b := range l.Back {
			v := b.Phis[n]
			if v == nil || v.Op != OpList {
				continue
			}
			for _, s := range v.Args {
				if s.Op == OpElem && isOne(s.Args[0]) {
					return n
				}
			}
		}
	}
	return ""
}

func (g *gen) effectsIn(es []Event, m map[*Term]*Term) []string {
	memo := map[*Term]*Term{}
	var out []Event
	for _, e := range es {
		var args []*Term
		for _, a := range e.Args {
			args = append(args, subst(a, m, memo))
		}
		e.Args = args
		out = append(out, e)
	}
	return g.effects(out)
}

func (g *gen) paths(outs []Outcome) []tpath {
	var ps []tpath
	for i := range outs {
		o := &outs[i]
		var rs []string
		for k := range o.Results {
			rs = append(rs, goText(o.Result(k)))
		}
		ret := strings.Join(rs, ", ")
		if o.Kind != "ret" {
			ret = o.Kind + " " + ret
		}
		ps = append(ps, tpath{lits: o.Lits(), ret: ret, eff: g.effects(o.St.events)})
	}
	return ps
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// method finds a method of a named type of package rel.
func (p *Program) method(rel, typ, name string) *ssa.Function {
	sp := p.SSA[rel]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(typ)
	if o == nil {
		return nil
	}
	for _, t := range []types.Type{o.Type(), types.NewPointer(o.Type())} {
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name && len(ms.At(i).Index()) == 1 {
				if f, ok := ms.At(i).Obj().(*types.Func); ok {
					return p.Prog.FuncValue(f)
				}
			}
		}
	}
	return nil
}

func (p *Program) typ(rel, name string) types.Type {
	sp := p.SSA[rel]
	if sp == nil {
		return nil
	}
	if o, ok := sp.Pkg.Scope().Lookup(name).(*types.TypeName); ok {
		return o.Type()
	}
	return nil
}

func (p *Program) konst(rel, name string) *Term {
	sp := p.SSA[rel]
	if sp == nil {
		return nil
	}
	if o, ok := sp.Pkg.Scope().Lookup(name).(*types.Const); ok {
		return tConst(o.Val(), nil)
	}
	return nil
}

// implementers lists the concrete types of package rel that implement an interface of it, by value.
func (p *Program) implementers(rel string, iface types.Type) []types.Type {
	var res []types.Type
	it, ok := iface.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	sp := p.SSA[rel]
	for _, n := range sp.Pkg.Scope().Names() {
		tn, ok := sp.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || isIface(tn.Type()) {
			continue
		}
		if types.Implements(tn.Type(), it) {
			res = append(res, tn.Type())
		}
	}
	return res
}

func typeName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return shortType(t)
}

// litStrings renders the conditions of a path, sorted.
func litStrings(ls []*Term) []string {
	var xs []string
	for _, l := range ls {
		xs = append(xs, l.String())
	}
	sort.Strings(xs)
	return xs
}

// eventsOf selects events by kind and name.
func eventsOf(es []Event, kind, name string) []Event {
	var r []Event
	for _, e := range es {
		if (kind == "" || e.Kind == kind) && (name == "" || e.Name == name) {
			r = append(r, e)
		}
	}
	return r
}

// visible drops events that only matter to other analyses.
func visible(es []Event) []Event {
	var r []Event
	for _, e := range es {
		if e.Kind == "panicsite" {
			continue
		}
		r = append(r, e)
	}
	return r
}

func eventStrings(es []Event) string {
	var xs []string
	for _, e := range es {
		xs = append(xs, e.String())
	}
	return strings.Join(xs, "; ")
}

// summary gives the behaviour of a function as sorted lines "conditions => results / effects".
func summary(outs []Outcome) []string {
	var xs []string
	for i := range outs {
		o := &outs[i]
		var rs []string
		for k := range o.Results {
			rs = append(rs, o.Result(k).String())
		}
		s := strings.Join(litStrings(o.Lits()), " && ")
		if s == "" {
			s = "always"
		}
		s += " => " + o.Kind + " " + strings.Join(rs, ", ")
		if es := visible(o.St.events); len(es) > 0 {
			s += " / " + eventStrings(es)
		}
		xs = append(xs, s)
	}
	sort.Strings(xs)
	return xs
}

// expectSummary compares the behaviour of a function with the one that is specified.
func (r *Report) expectSummary(props, rule string, f *ssa.Function, subject string, in *Interp, want ...string) {
	if f == nil {
		r.check(props, rule, subject, "exists", token.NoPos, false, "function to analyse was not found")
		return
	}
	outs, err := in.runDefault(f)
	r.used(props, f, len(outs))
	if err != nil {
		r.check(props, rule, subject, "decided", f.Pos(), false, "behaviour can not be determined: %v", err)
		return
	}
	// A path of the code is right if it contradicts every case in which something else is specified: the cases
	// specified are all there are, and so are the paths of the code.
	type caseOf struct {
		lits []string
		does string
	}
	var spec []caseOf
	for _, w := range want {
		x := strings.SplitN(w, " => ", 2)
		c := caseOf{does: x[1]}
		if x[0] != "always" {
			c.lits = strings.Split(x[0], " && ")
		}
		spec = append(spec, c)
	}
	var got []caseOf
	for i := range outs {
		o := &outs[i]
		s := ""
		if es := visible(o.St.events); len(es) > 0 {
			s = " / " + eventStrings(es)
		}
		lits := litStrings(o.Lits())
		var rs []string
		for k := range o.Results {
			rs = append(rs, o.Result(k).String())
		}
		if len(o.Results) == 1 && isBoolResult(f) && rs[0] != "true" && rs[0] != "false" {
			got = append(got, caseOf{append(append([]string{}, lits...), rs[0]), o.Kind + " true" + s},
				caseOf{append(append([]string{}, lits...), litStrings([]*Term{tNot(o.Result(0))})...), o.Kind + " false" + s})
			continue
		}
		got = append(got, caseOf{lits, o.Kind + " " + strings.Join(rs, ", ") + s})
	}
	contradict := func(a, b string) bool {
		not := func(x, y string) bool { return y == "!("+x+")" }
		if not(a, b) || not(b, a) {
			return true
		}
		x, y := reIs.FindStringSubmatch(a), reIs.FindStringSubmatch(b)
		if x != nil && y != nil && x[2] == y[2] && x[1] != y[1] {
			return true
		}
		// what was not found has no type
		for _, p := range [][2]string{{a, b}, {b, a}} {
			if m := reIs.FindStringSubmatch(p[0]); m != nil && strings.HasPrefix(m[2], "lookup(") && not("found("+strings.TrimPrefix(m[2], "lookup("), p[1]) {
				return true
			}
		}
		return false
	}
	var does []string
	for _, g := range got {
		c := strings.Join(g.lits, " && ")
		if c == "" {
			c = "always"
		}
		does = append(does, c+" => "+g.does)
	}
	for wi, w := range spec {
		ok, why := true, ""
		for gi, g := range got {
			if g.does == w.does {
				continue
			}
			apart := false
			for _, x := range g.lits {
				for _, y := range w.lits {
					apart = apart || contradict(x, y)
				}
			}
			if !apart {
				ok, why = false, does[gi]
			}
		}
		r.check(props, rule, subject, want[wi], f.Pos(), ok, "specified is %q, the function does %q", want[wi], why)
	}
	r.check(props, rule, subject, "some way through", f.Pos(), len(got) > 0, "the function never returns")
}

func isBoolResult(f *ssa.Function) bool {
	b, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func fmtTerms(ts []*Term) string {
	var xs []string
	for _, t := range ts {
		xs = append(xs, t.String())
	}
	return strings.Join(xs, ", ")
}

var _ = fmt.Sprint

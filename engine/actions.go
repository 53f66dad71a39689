package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Actions of a generated parser: what the code run at the reduction of a production does, as terms over the
// values $1, $2, ... of the symbols of its right side.

// action is what is done at the reduction of a production.
type action struct {
	prod  int
	block *ssa.BasicBlock // nil: nothing is done, the value is that of $1
	outs  []actionPath
	slice int // values below the top of the stack that are taken as $1...$n, -1: none
	err   error
}

type actionPath struct {
	o     *Outcome
	val   *Term // value of the left side
	lexer *Term // the lexer after the action
}

// driver is the parsing function of a generated parser.
type driver struct {
	pr      *Program
	fn      *ssa.Function
	sw      ssa.Value // the production that is reduced
	top     ssa.Value // index of the top of the stack before reduction
	cases   map[int]*ssa.If
	stop    *ssa.BasicBlock
	val     *ssa.Alloc // yyVAL
	symType types.Type
	lexType types.Type
	first   *ssa.BasicBlock // where the selection of actions starts
	region  map[*ssa.BasicBlock]bool
}

func findDriver(pr *Program) *driver {
	d := &driver{pr: pr, cases: map[int]*ssa.If{}}
	d.fn = pr.method("", "yyParserImpl", "Parse")
	if d.fn == nil {
		panic(undecided{"the function (*yyParserImpl).Parse of the generated parser was not found"})
	}
	d.symType, d.lexType = pr.typ("", "yySymType"), pr.typ("", "MyLexer")
	if d.symType == nil || d.lexType == nil {
		panic(undecided{"types yySymType and MyLexer were not found"})
	}
	// the value compared with the most constants selects the action
	n := map[ssa.Value]map[int]*ssa.If{}
	for _, b := range d.fn.Blocks {
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := i.Cond.(*ssa.BinOp)
		if !ok || c.Op != token.EQL {
			continue
		}
		k, ok := c.Y.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int || k.Int64() < 1 {
			continue
		}
		if n[c.X] == nil {
			n[c.X] = map[int]*ssa.If{}
		}
		n[c.X][int(k.Int64())] = i
	}
	for v, m := range n {
		if d.sw == nil || len(m) > len(n[d.sw]) {
			d.sw = v
		}
	}
	if d.sw == nil || len(n[d.sw]) < 3 {
		panic(undecided{"selection of the actions was not found in the generated parser"})
	}
	d.cases = n[d.sw]
	for _, i := range d.cases {
		b := i.Block()
		if d.first == nil || b.Dominates(d.first) {
			d.first = b
		}
	}
	// the loops around it: the one control returns to first
	headers := map[*ssa.BasicBlock]bool{}
	for h, l := range pr.loopsOf(d.fn) {
		if l.blocks[d.first] {
			headers[h] = true
		}
	}
	d.region = map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{d.first}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if headers[b] {
			if d.stop != nil && d.stop != b {
				panic(undecided{"actions of the generated parser go on at different places"})
			}
			d.stop = b
			continue
		}
		if d.region[b] {
			continue
		}
		d.region[b] = true
		work = append(work, b.Succs...)
	}
	if d.stop == nil {
		panic(undecided{"the main loop of the generated parser was not found"})
	}
	for _, b := range d.fn.Blocks {
		for _, ins := range b.Instrs {
			if a, ok := ins.(*ssa.Alloc); ok && types.Identical(a.Type().Underlying().(*types.Pointer).Elem(), d.symType) {
				if d.val != nil {
					panic(undecided{"the generated parser has more than one value under construction"})
				}
				d.val = a
			}
		}
	}
	if d.val == nil {
		panic(undecided{"the value under construction was not found in the generated parser"})
	}
	return d
}

// dollar is the name of the i-th value of the right side.
func dollar(i int) string { return fmt.Sprintf("$%d", i) }

// action interprets what is done at the reduction of a production with n symbols on its right side.
func (d *driver) action(prod, n int, opaque map[*ssa.Function]bool, handler map[*ssa.Function]func(in *Interp, st *State, args []*Term) (*Term, bool)) *action {
	a := &action{prod: prod, slice: -1}
	st := newState()
	initial := tSymT("stale", d.symType)
	if n > 0 {
		initial = tSymT(dollar(1), d.symType)
	}
	val := st.alloc(d.symType, initial)
	lexer := st.alloc(d.lexType, tSymT("lexer", d.lexType))
	i := d.cases[prod]
	if i == nil {
		a.outs = []actionPath{{val: initial, lexer: tSymT("lexer", d.lexType), o: &Outcome{Kind: "stop", St: st}}}
		return a
	}
	a.block = i.Block().Succs[0]
	in := newInterp(d.pr)
	in.opaque = opaque
	in.handler = handler
	in.stop = d.stop
	in.lazyEnv = func(v ssa.Value) *Term {
		if v == d.val {
			return val
		}
		if p, ok := v.(*ssa.Parameter); ok && types.IsInterface(p.Type()) {
			return tIface(types.NewPointer(d.lexType), lexer)
		}
		return tSymT("reg:"+v.Name(), v.Type())
	}
	in.sliceHook = func(st *State, x *ssa.Slice, lo, hi *Term) *Term {
		s, ok := x.Type().Underlying().(*types.Slice)
		if !ok || !types.Identical(s.Elem(), d.symType) {
			return nil
		}
		// top-n : top+1
		loBase, loOff := offset(lo)
		hiBase, hiOff := offset(hi)
		below, ok := hiOff-1-loOff, loBase == hiBase
		if !ok || below < 0 || below > 1000 {
			in.fail("values of the right side of production %d are taken from %s to %s", prod, lo, hi)
		}
		if x.High != nil {
			if b, ok := x.High.(*ssa.BinOp); ok && b.Op == token.ADD && (d.top == nil || d.top == b.X) {
				d.top = b.X
			} else {
				in.fail("values of the right side of production %d do not end at the top of the stack", prod)
			}
		}
		a.slice = int(below)
		var es []*Term
		for k := int64(0); k <= below; k++ {
			es = append(es, tElem(tSymT(dollar(int(k)), d.symType)))
		}
		return tList(es...)
	}
	var outs []Outcome
	func() {
		defer func() {
			if e := recover(); e != nil {
				u, ok := e.(undecided)
				if !ok {
					panic(e)
				}
				a.err = fmt.Errorf("%s", u.msg)
			}
		}()
		fr := &Frame{fn: d.fn, env: map[ssa.Value]*Term{}, unroll: map[*ssa.BasicBlock]int{}, stack: []*ssa.Function{d.fn}}
		outs = in.enter(fr, st, nil, a.block)
	}()
	for k := range outs {
		o := &outs[k]
		p := actionPath{o: o}
		if o.Kind == "stop" {
			p.val = o.St.snapshot(o.St.load(val, d.symType))
			p.lexer = o.St.snapshot(o.St.load(lexer, d.lexType))
		}
		a.outs = append(a.outs, p)
	}
	return a
}

// fieldOf is the field of the value of the left side.
func (p *actionPath) fieldOf(name string, t types.Type) *Term {
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return tField(p.val, name, s.Field(i).Type())
		}
	}
	return nil
}

func ruleText(left string, right []string) string {
	if len(right) == 0 {
		return left + ":"
	}
	return left + ": " + strings.Join(right, " ")
}

// offset splits a sum with a constant.
func offset(t *Term) (*Term, int64) {
	if t.Op == OpBin && t.Name == "+" && len(t.Args) == 2 {
		if k, ok := t.Args[1].intVal(); ok {
			b, n := offset(t.Args[0])
			return b, n + k
		}
		if k, ok := t.Args[0].intVal(); ok {
			b, n := offset(t.Args[1])
			return b, n + k
		}
	}
	return t, 0
}

// effects are the visible events apart from loops that do nothing but compute values.
func effects(es []Event) []Event {
	var r []Event
	for _, e := range visible(es) {
		if e.Kind == "loop" && e.Loop != nil && e.Loop.Over != nil {
			quiet := true
			for _, p := range append(append([]LoopPath{}, e.Loop.Back...), e.Loop.Exits...) {
				quiet = quiet && len(effects(p.Events)) == 0
			}
			if quiet {
				continue
			}
		}
		r = append(r, e)
	}
	return r
}

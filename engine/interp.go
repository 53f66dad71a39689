package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Interp is an abstract interpreter of functions in SSA form. It computes, for every way control can flow
// through a function, under which conditions it is taken, what is returned, and what is done to the outside.
// Loops are cut at their headers: loop variables and memory a loop writes are abstracted there, and
// the effect of any number of iterations is described by the set of paths from the header back to it.
type Interp struct {
	steps   int
	pr      *Program
	opaque  map[*ssa.Function]bool
	bareSym string // value whose wrappers are taken to be removed
	handler map[*ssa.Function]func(in *Interp, st *State, args []*Term) (*Term, bool)
	paths   int
	limit   int
	depth   int // loop nesting, over all frames
	// whole program facts
	noMerge bool
	noFold  bool // lists made by loops are not described, and leaving a loop early is recorded
	// stop: block at which a region ends (outcome kind Stop)
	stop *ssa.BasicBlock
	// lazyEnv gives values to registers defined outside of the region
	lazyEnv   func(v ssa.Value) *Term
	ptrParams map[*Term]bool
	// sliceHook gives values to slice expressions of a region
	sliceHook func(st *State, x *ssa.Slice, lo, hi *Term) *Term
	named     map[string]*Term // objects of this type are called so in calls that are not looked into
	initMode  *ssa.Package     // package whose initialisation is interpreted
	multi     map[*ssa.Function]func(in *Interp, fr *Frame, st *State, args []*Term, pos token.Pos) []Outcome
	prod      *product
	// ext answers calls of functions outside of the repository, of methods of interfaces and of builtins
	ext func(fr *Frame, st *State, name string, args []*Term, sig *types.Signature, pos token.Pos) ([]Outcome, bool)
	err error
}

type undecided struct{ msg string }

func (in *Interp) fail(format string, args ...interface{}) {
	panic(undecided{fmt.Sprintf(format, args...)})
}

type deferred struct {
	call *ssa.CallCommon
	fn   *Term
	args []*Term
	pos  token.Pos
}

// Frame is activation of a function on a path.
type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	defers []deferred
	stack  []*ssa.Function
	loops  []*loopAct
	flag   *ssa.BasicBlock // loop being left as its flag says
	unroll map[*ssa.BasicBlock]int
}

type loopAct struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func (f *Frame) clone() *Frame {
	c := &Frame{fn: f.fn, stack: f.stack, loops: f.loops, flag: f.flag}
	c.env = make(map[ssa.Value]*Term, len(f.env))
	for k, v := range f.env {
		c.env[k] = v
	}
	c.defers = append([]deferred(nil), f.defers...)
	c.unroll = map[*ssa.BasicBlock]int{}
	for k, v := range f.unroll {
		c.unroll[k] = v
	}
	return c
}

// Outcome is end of a path.
type Outcome struct {
	Kind    string // ret, panic, exit, back, leave, stop
	Results []*Term
	St      *State
	fr      *Frame
	from    *ssa.BasicBlock
	to      *ssa.BasicBlock
	Pos     token.Pos
	phis    map[*ssa.Phi]*Term
}

// Result is the i-th result with local memory written out.
func (o *Outcome) Result(i int) *Term {
	if i >= len(o.Results) {
		return nil
	}
	return o.St.snapshot(o.Results[i])
}

func (o *Outcome) Lits() []*Term { return o.St.lits }

func (o *Outcome) String() string {
	var xs, rs []string
	for _, l := range o.St.lits {
		xs = append(xs, l.String())
	}
	for k, d := range o.St.dom {
		if d.size() < len(runeReps) {
			xs = append(xs, k.String()+"∈"+d.String())
		}
	}
	sort.Strings(xs)
	for i := range o.Results {
		rs = append(rs, o.Result(i).String())
	}
	var es []string
	for _, e := range o.St.events {
		es = append(es, e.String())
	}
	return fmt.Sprintf("%s (%s)\n    if %s\n    do %s\n    stream %s pos %d %v", o.Kind, strings.Join(rs, ", "), strings.Join(xs, " && "), strings.Join(es, "; "), o.St.stream.Epoch, o.St.stream.Pos, o.St.stream.Kinds)
}

func newInterp(pr *Program) *Interp {
	return &Interp{pr: pr, opaque: map[*ssa.Function]bool{}, handler: map[*ssa.Function]func(in *Interp, st *State, args []*Term) (*Term, bool){}, limit: 60000}
}

// Run interprets fn on args from state st.
func (in *Interp) Run(fn *ssa.Function, args []*Term, st *State) (outs []Outcome, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				err = fmt.Errorf("%s: %s", fn, u.msg)
				return
			}
			panic(r)
		}
	}()
	return in.runFunc(fn, args, nil, st, nil), nil
}

func (in *Interp) runFunc(fn *ssa.Function, args []*Term, bindings []*Term, st *State, stack []*ssa.Function) []Outcome {
	if len(fn.Blocks) == 0 {
		in.fail("no body: %s", fn)
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]*Term{}, unroll: map[*ssa.BasicBlock]int{}}
	fr.stack = append(append([]*ssa.Function{}, stack...), fn)
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bindings) {
			fr.env[fv] = bindings[i]
		}
	}
	var keep map[*Term]bool
	if in.prod != nil {
		keep = domKeys(st)
	}
	outs := in.enter(fr, st, nil, fn.Blocks[0])
	if in.noMerge {
		return outs
	}
	if in.prod != nil {
		in.prod.forget(outs, keep)
	}
	return in.merge(outs)
}

// merge joins outcomes that differ only in conditions that together are always true,
// or in the set of characters of one symbol.
func (in *Interp) merge(outs []Outcome) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	for {
		merged := false
		sig := map[string][]int{}
		for i := range outs {
			k := outs[i].signature()
			sig[k] = append(sig[k], i)
		}
		dead := map[int]bool{}
		for _, idx := range sig {
			if len(idx) < 2 {
				continue
			}
			for a := 0; a < len(idx); a++ {
				if dead[idx[a]] {
					continue
				}
				for b := a + 1; b < len(idx); b++ {
					if dead[idx[b]] {
						continue
					}
					if m, ok := mergeTwo(&outs[idx[a]], &outs[idx[b]]); ok {
						outs[idx[a]] = *m
						dead[idx[b]] = true
						merged = true
					}
				}
			}
		}
		if !merged {
			return outs
		}
		var n []Outcome
		for i := range outs {
			if !dead[i] {
				n = append(n, outs[i])
			}
		}
		outs = n
	}
}

func (o *Outcome) signature() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s|", o.Kind)
	for _, r := range o.Results {
		fmt.Fprintf(&b, "%d,", r.id)
	}
	st := o.St
	ids := make([]int, 0, len(st.heap))
	for id := range st.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		fmt.Fprintf(&b, "|%d:%d", id, st.heap[id].content.id)
	}
	fmt.Fprintf(&b, "|E%d", len(st.events))
	for _, e := range st.events {
		fmt.Fprintf(&b, ";%s %s", e.Kind, e.Name)
		for _, a := range e.Args {
			fmt.Fprintf(&b, ",%d", a.id)
		}
		if e.Loop != nil {
			fmt.Fprintf(&b, "L%p", e.Loop)
		}
	}
	fmt.Fprintf(&b, "|S%s %d %v", st.stream.Epoch, st.stream.Pos, st.stream.CanUnrd)
	var ks []int
	for k := range st.stream.Kinds {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, " %d%s", k, st.stream.Kinds[k])
		if e := st.stream.Elems[k]; e != nil {
			fmt.Fprintf(&b, "=%d", e.id)
		}
	}
	if st.gh != nil {
		b.WriteString(st.gh.key())
	}
	return b.String()
}

func mergeTwo(a, b *Outcome) (*Outcome, bool) {
	// difference of domains
	var dsym *Term
	nd := 0
	for k, d := range a.St.dom {
		if d != b.St.dom[k] {
			dsym = k
			nd++
		}
	}
	for k := range b.St.dom {
		if _, ok := a.St.dom[k]; !ok {
			dsym = k
			nd++
		}
	}
	var onlyA, onlyB []*Term
	for _, l := range a.St.lits {
		if !b.St.litSet[l] {
			onlyA = append(onlyA, l)
		}
	}
	for _, l := range b.St.lits {
		if !a.St.litSet[l] {
			onlyB = append(onlyB, l)
		}
	}
	if nd == 0 && len(onlyA) == 0 && len(onlyB) == 0 {
		return a, true
	}
	if nd == 1 && len(onlyA) == 0 && len(onlyB) == 0 {
		_, ok1 := a.St.dom[dsym]
		_, ok2 := b.St.dom[dsym]
		if !ok1 || !ok2 {
			return nil, false
		}
		c := *a
		c.St = a.St.clone()
		c.St.dom[dsym] = a.St.dom[dsym].or(b.St.dom[dsym])
		return &c, true
	}
	if nd == 0 && len(onlyA) == 1 && len(onlyB) == 1 && onlyA[0] == tNot(onlyB[0]) {
		c := *a
		c.St = a.St.clone()
		c.St.dropLits(func(l *Term) bool { return l == onlyA[0] })
		return &c, true
	}
	if nd == 0 && (len(onlyA) == 0 || len(onlyB) == 0) {
		// the weaker condition covers both
		if len(onlyA) == 0 {
			return a, true
		}
		return b, true
	}
	return nil, false
}

func (s *State) dropLits(f func(*Term) bool) {
	var n []*Term
	for _, l := range s.lits {
		if f(l) {
			delete(s.litSet, l)
			if l.Op == OpBin && l.Name == "==" {
				delete(s.eq, l.Args[0])
			}
			continue
		}
		n = append(n, l)
	}
	s.lits = n
}

// enter transfers control to block to.
func (in *Interp) enter(fr *Frame, st *State, from, to *ssa.BasicBlock) []Outcome {
	if in.steps++; in.steps%1024 == 0 && !in.pr.deadline.IsZero() && time.Now().After(in.pr.deadline) {
		in.fail("there is more to go through than there is time for")
	}
	if n := len(fr.loops); n > 0 {
		l := fr.loops[n-1]
		if to == l.header {
			if in.prod == nil {
				if f := in.flagged(fr, st, from, l); f != nil {
					return in.exec(f, st, to, 0)
				}
			}
			return []Outcome{{Kind: "back", St: st, fr: fr, from: from, to: to}}
		}
		if !l.blocks[to] {
			return []Outcome{{Kind: "leave", St: st, fr: fr, from: from, to: to}}
		}
	}
	if in.stop != nil && to == in.stop && len(fr.stack) == 1 {
		return []Outcome{{Kind: "stop", St: st, fr: fr, from: from, to: to}}
	}
	if li := in.pr.loopsOf(fr.fn)[to]; li != nil {
		return in.loop(fr, st, from, to, li)
	}
	return in.block(fr, st, from, to)
}

// flagged: a loop that goes on only while a flag says so ends where the flag was set. It gives the frame to go on in.
func (in *Interp) flagged(fr *Frame, st *State, from *ssa.BasicBlock, l *loopAct) *Frame {
	n := len(l.header.Instrs)
	br, ok := l.header.Instrs[n-1].(*ssa.If)
	if !ok {
		return nil
	}
	c, neg := br.Cond, false
	for _, i := range l.header.Instrs[:n-1] {
		switch i := i.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.UnOp:
			if i.Op != token.NOT || c != i {
				return nil
			}
			c, neg = i.X, true
		default:
			return nil
		}
	}
	p, ok := c.(*ssa.Phi)
	if !ok || p.Block() != l.header || !constPhi(p) {
		return nil
	}
	vals := in.phiValues(fr, st, from, l.header)
	v, ok := st.norm(vals[p]).boolVal()
	if !ok {
		return nil
	}
	to := l.header.Succs[0]
	if v == neg {
		to = l.header.Succs[1]
	}
	if l.blocks[to] {
		return nil
	}
	f := fr.clone()
	for p, v := range vals {
		f.env[p] = v
	}
	f.flag = l.header
	return f
}

// block runs a block from its beginning.
func (in *Interp) block(fr *Frame, st *State, from, b *ssa.BasicBlock) []Outcome {
	in.phis(fr, st, from, b)
	return in.exec(fr, st, b, 0)
}

func edgeIndex(from, b *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == from {
			return i
		}
	}
	return -1
}

func (in *Interp) phiValues(fr *Frame, st *State, from, b *ssa.BasicBlock) map[*ssa.Phi]*Term {
	m := map[*ssa.Phi]*Term{}
	e := edgeIndex(from, b)
	for _, i := range b.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		if e < 0 {
			m[p] = in.lookup(fr, st, p)
			continue
		}
		m[p] = in.val(fr, st, p.Edges[e])
	}
	return m
}

func (in *Interp) phis(fr *Frame, st *State, from, b *ssa.BasicBlock) {
	if from == nil {
		return
	}
	for p, v := range in.phiValues(fr, st, from, b) {
		fr.env[p] = v
	}
}

func (in *Interp) lookup(fr *Frame, st *State, v ssa.Value) *Term {
	if t, ok := fr.env[v]; ok {
		return t
	}
	if in.lazyEnv != nil && len(fr.stack) == 1 {
		if t := in.lazyEnv(v); t != nil {
			fr.env[v] = t
			return t
		}
	}
	in.fail("value of %s in %s is not known", v.Name(), fr.fn)
	return nil
}

func (in *Interp) val(fr *Frame, st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zero(x.Type())
		}
		cv := x.Value
		if b, ok := x.Type().Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsInteger != 0:
				cv = constant.ToInt(cv)
			case b.Info()&types.IsFloat != 0:
				cv = constant.ToFloat(cv)
			}
		}
		return tConst(cv, nil)
	case *ssa.Function:
		return mk(Term{Op: OpFunc, Fn: x})
	case *ssa.Global:
		return in.globalAddr(st, x)
	case *ssa.Builtin:
		return tCall("builtin:" + x.Name())
	}
	return in.lookup(fr, st, v)
}

func (in *Interp) globalAddr(st *State, g *ssa.Global) *Term {
	key := mk(Term{Op: OpGlobal, Name: g.String(), Type: g.Type()})
	if id, ok := st.symObj[key]; ok {
		return tObj(id)
	}
	id := st.nextObj
	st.nextObj++
	st.symObj[key] = id
	elem := g.Type().Underlying().(*types.Pointer).Elem()
	var content *Term
	if in.initMode != nil && g.Pkg == in.initMode {
		content = zero(elem)
	} else {
		content = in.pr.globalContent(g)
	}
	if content == nil {
		content = tSymT("global:"+g.String(), elem)
	}
	st.heap[id] = &heapObj{typ: elem, content: content, glob: g}
	return tObj(id)
}

type next struct {
	st *State
	fr *Frame
}

// exec runs instructions of b from index i on.
func (in *Interp) exec(fr *Frame, st *State, b *ssa.BasicBlock, i int) []Outcome {
	for ; i < len(b.Instrs); i++ {
		switch x := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			return in.enter(fr, st, b, b.Succs[0])
		case *ssa.If:
			return in.branch(fr, st, b, in.val(fr, st, x.Cond))
		case *ssa.Return:
			var rs []*Term
			for _, r := range x.Results {
				rs = append(rs, in.val(fr, st, r))
			}
			in.count()
			return []Outcome{{Kind: "ret", Results: rs, St: st, Pos: x.Pos(), fr: fr}}
		case *ssa.Panic:
			in.count()
			st.event(Event{Kind: "panicsite", Name: "panic", Args: []*Term{st.snapshot(in.val(fr, st, x.X))}, Pos: x.Pos(), Fn: fr.fn})
			return []Outcome{{Kind: "panic", Results: []*Term{in.val(fr, st, x.X)}, St: st, Pos: x.Pos(), fr: fr}}
		case *ssa.Call:
			rest := i + 1
			var outs []Outcome
			rs := in.call(fr, st, &x.Call, x, x.Pos())
			for k, r := range rs {
				if r.Kind != "ret" {
					r.fr = fr
					outs = append(outs, r)
					continue
				}
				f := fr
				if k < len(rs)-1 {
					f = fr.clone()
				}
				f.env[x] = packResults(r.Results)
				outs = append(outs, in.exec(f, r.St, b, rest)...)
			}
			return outs
		case *ssa.RunDefers:
			outs := []Outcome{}
			states := []*State{st}
			ds := fr.defers
			fr.defers = nil
			for d := len(ds) - 1; d >= 0; d-- {
				var nst []*State
				for _, s := range states {
					for _, r := range in.callTerm(fr, s, ds[d].call, ds[d].fn, ds[d].args, nil, ds[d].pos) {
						if r.Kind == "ret" {
							nst = append(nst, r.St)
						} else {
							outs = append(outs, r)
						}
					}
				}
				states = nst
			}
			for k, s := range states {
				f := fr
				if k < len(states)-1 {
					f = fr.clone()
				}
				outs = append(outs, in.exec(f, s, b, i+1)...)
			}
			return outs
		case *ssa.Defer:
			fnT, args := in.callOperands(fr, st, &x.Call)
			fr.defers = append(fr.defers, deferred{&x.Call, fnT, args, x.Pos()})
		case *ssa.Go:
			_, args := in.callOperands(fr, st, &x.Call)
			st.event(Event{Kind: "go", Name: x.Call.String(), Args: args, Pos: x.Pos(), Fn: fr.fn})
		case *ssa.Lookup:
			res := in.mapLookup(fr, st, x)
			if len(res) == 1 {
				fr.env[x] = res[0].v
				st = res[0].st
				continue
			}
			var outs []Outcome
			for k, r := range res {
				f := fr
				if k < len(res)-1 {
					f = fr.clone()
				}
				f.env[x] = r.v
				outs = append(outs, in.exec(f, r.st, b, i+1)...)
			}
			return outs
		case *ssa.TypeAssert:
			v := in.val(fr, st, x.X)
			is := tIsType(v, x.AssertedType)
			if !x.CommaOk {
				if val, known := st.decide(is); !known || !val {
					if known {
						st.event(Event{Kind: "panicsite", Name: "assert", Args: []*Term{is}, Pos: x.Pos(), Fn: fr.fn})
						return []Outcome{{Kind: "panic", St: st, Pos: x.Pos(), fr: fr}}
					}
					st.event(Event{Kind: "panicsite", Name: "assert", Args: []*Term{is}, Pos: x.Pos(), Fn: fr.fn})
					st.assume(is)
				}
				fr.env[x] = st.norm(tAssert(v, x.AssertedType))
				continue
			}
			val, known := st.decide(is)
			if !known {
				st2, fr2 := st.clone(), fr.clone()
				var outs []Outcome
				if st2.assume(is) {
					fr2.env[x] = tTuple(tAssert(v, x.AssertedType), tBool(true))
					outs = append(outs, in.exec(fr2, st2, b, i+1)...)
				}
				if st.assume(tNot(is)) {
					fr.env[x] = tTuple(zero(x.AssertedType), tBool(false))
					outs = append(outs, in.exec(fr, st, b, i+1)...)
				}
				return outs
			}
			if val {
				fr.env[x] = tTuple(tAssert(v, x.AssertedType), tBool(true))
			} else {
				fr.env[x] = tTuple(zero(x.AssertedType), tBool(false))
			}
		default:
			in.simple(fr, st, b.Instrs[i])
		}
	}
	return nil
}

func (in *Interp) count() {
	in.paths++
	if in.paths > in.limit {
		in.fail("more than %d paths", in.limit)
	}
}

func packResults(rs []*Term) *Term {
	switch len(rs) {
	case 0:
		return tTuple()
	case 1:
		return rs[0]
	}
	return tTuple(rs...)
}

// cases splits a state on a condition.
func (in *Interp) cases(st *State, c *Term) (t, f []*State) {
	c = st.norm(c)
	if v, known := st.decide(c); known {
		if v {
			return []*State{st}, nil
		}
		return nil, []*State{st}
	}
	if c.Op == OpNot {
		t, f = in.cases(st, c.Args[0])
		return f, t
	}
	if c.Op == OpAnd {
		cur := []*State{st}
		for _, a := range c.Args {
			var nxt []*State
			for _, s := range cur {
				tt, ff := in.cases(s, a)
				nxt = append(nxt, tt...)
				f = append(f, ff...)
			}
			cur = nxt
		}
		return cur, f
	}
	if in.prod != nil {
		if t, f, ok := in.prod.cases(in, st, c); ok {
			return t, f
		}
	}
	s2 := st.clone()
	if s2.assume(c) {
		t = append(t, s2)
	}
	if st.assume(tNot(c)) {
		f = append(f, st)
	}
	return
}

func (in *Interp) branch(fr *Frame, st *State, b *ssa.BasicBlock, c *Term) []Outcome {
	t, f := in.cases(st, c)
	var outs []Outcome
	n := len(t) + len(f)
	k := 0
	pick := func() *Frame {
		k++
		if k == n {
			return fr
		}
		return fr.clone()
	}
	for _, s := range t {
		outs = append(outs, in.enter(pick(), s, b, b.Succs[0])...)
	}
	for _, s := range f {
		outs = append(outs, in.enter(pick(), s, b, b.Succs[1])...)
	}
	return outs
}

// simple runs an instruction that does not branch.
func (in *Interp) simple(fr *Frame, st *State, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.Alloc:
		elem := x.Type().Underlying().(*types.Pointer).Elem()
		fr.env[x] = st.alloc(elem, zero(elem))
		if in.named[types.TypeString(elem, nil)] != nil {
			st.heap[fr.env[x].Obj].escaped = true
		}
	case *ssa.Store:
		st.store(in.val(fr, st, x.Addr), in.val(fr, st, x.Val), x.Pos(), fr.fn)
	case *ssa.UnOp:
		v := in.val(fr, st, x.X)
		switch x.Op {
		case token.MUL:
			in.checkNil(st, v, x.Pos(), fr.fn)
			t := st.load(v, x.Type())
			if t.Type == nil {
				t.Type = x.Type()
			}
			fr.env[x] = st.norm(t)
		case token.NOT:
			fr.env[x] = tNot(v)
		case token.SUB:
			fr.env[x] = tUn("-", v)
		default:
			fr.env[x] = tUn(x.Op.String(), v)
		}
	case *ssa.BinOp:
		a, c := in.val(fr, st, x.X), in.val(fr, st, x.Y)
		if t := negation(x, a, c); t != nil {
			fr.env[x] = st.norm(t)
			break
		}
		if x.Op == token.QUO || x.Op == token.REM {
			if n, ok := c.intVal(); !ok || n == 0 {
				if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
					st.event(Event{Kind: "panicsite", Name: "divide", Args: []*Term{c}, Pos: x.Pos(), Fn: fr.fn})
				}
			}
		}
		t := tBin(x.Op.String(), st.norm(a), st.norm(c))
		if t.Type == nil && t.Op == OpBin {
			t.Type = x.Type()
		}
		fr.env[x] = t
	case *ssa.FieldAddr:
		base := in.val(fr, st, x.X)
		in.checkNil(st, base, x.Pos(), fr.fn)
		s := structOf(x.X.Type())
		fr.env[x] = mk(Term{Op: OpFieldA, Name: s.Field(x.Field).Name(), Args: []*Term{base}, Type: x.Type()})
	case *ssa.Field:
		s := structOf(x.X.Type())
		fr.env[x] = tField(in.val(fr, st, x.X), s.Field(x.Field).Name(), x.Type())
	case *ssa.IndexAddr:
		base, idx := in.val(fr, st, x.X), in.val(fr, st, x.Index)
		in.checkIndex(st, base, idx, x.X.Type(), x.Pos(), fr.fn)
		fr.env[x] = mk(Term{Op: OpIndexA, Args: []*Term{base, idx}, Type: x.Type()})
	case *ssa.Index:
		base, idx := in.val(fr, st, x.X), in.val(fr, st, x.Index)
		in.checkIndex(st, base, idx, x.X.Type(), x.Pos(), fr.fn)
		t := tIndex(base, idx)
		if t.Type == nil {
			t.Type = x.Type()
		}
		fr.env[x] = t
	case *ssa.Extract:
		t := tRes(in.val(fr, st, x.Tuple), fmt.Sprint(x.Index))
		if t.Type == nil {
			t.Type = x.Type()
		}
		fr.env[x] = st.norm(t)
	case *ssa.MakeInterface:
		fr.env[x] = tMkIface(x.X.Type(), in.val(fr, st, x.X))
	case *ssa.ChangeInterface:
		fr.env[x] = in.val(fr, st, x.X)
	case *ssa.ChangeType:
		fr.env[x] = convert(in.val(fr, st, x.X), x.X.Type(), x.Type())
	case *ssa.Convert:
		fr.env[x] = convert(in.val(fr, st, x.X), x.X.Type(), x.Type())
	case *ssa.MakeSlice:
		n := in.val(fr, st, x.Len)
		if k, ok := n.intVal(); ok && k <= 64 {
			var es []*Term
			for j := int64(0); j < k; j++ {
				es = append(es, tElem(zero(x.Type().Underlying().(*types.Slice).Elem())))
			}
			fr.env[x] = tList(es...)
		} else {
			fr.env[x] = mk(Term{Op: OpCall, Name: "makeslice", Args: []*Term{n}, Type: x.Type()})
		}
	case *ssa.MakeMap:
		fr.env[x] = st.alloc(x.Type(), mk(Term{Op: OpMap, Name: "known"}))
	case *ssa.MakeChan:
		fr.env[x] = tSymT(st.fresh("chan"), x.Type())
	case *ssa.MapUpdate:
		in.mapUpdate(st, in.val(fr, st, x.Map), in.val(fr, st, x.Key), in.val(fr, st, x.Value), x.Pos(), fr.fn)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, in.val(fr, st, b))
		}
		fr.env[x] = mk(Term{Op: OpClosure, Fn: x.Fn.(*ssa.Function), Args: bs, Type: x.Type()})
	case *ssa.Slice:
		fr.env[x] = in.slice(fr, st, x)
	case *ssa.Range:
		st.event(Event{Kind: "range", Name: shortType(x.X.Type()), Args: []*Term{in.val(fr, st, x.X)}, Pos: x.Pos(), Fn: fr.fn})
		fr.env[x] = mk(Term{Op: OpCall, Name: "rangeiter", Args: []*Term{in.val(fr, st, x.X)}, Type: x.Type()})
	case *ssa.Next:
		n := st.fresh("next")
		tp := x.Type().(*types.Tuple)
		fr.env[x] = tTuple(tSymT(n+".ok", types.Typ[types.Bool]), tSymT(n+".k", tp.At(1).Type()), tSymT(n+".v", tp.At(2).Type()))
	case *ssa.Send:
		st.event(Event{Kind: "send", Pos: x.Pos(), Fn: fr.fn})
	case *ssa.Select:
		in.fail("select in %s", fr.fn)
	default:
		if v, ok := ins.(ssa.Value); ok {
			fr.env[v] = tSymT(st.fresh("unknown"), v.Type())
			return
		}
		in.fail("instruction %T in %s", ins, fr.fn)
	}
}

func (in *Interp) checkNil(st *State, p *Term, pos token.Pos, fn *ssa.Function) {
	switch p.Op {
	case OpObj, OpFieldA, OpIndexA, OpPtr, OpGlobal:
		return
	}
	if in.ptrParams[p] {
		return
	}
	if p.Op == OpField || p.Op == OpDeref || p.Op == OpSym || true {
		isNil := tBin("==", p, tNil())
		if v, known := st.decide(isNil); known && !v {
			return
		}
		st.event(Event{Kind: "panicsite", Name: "nil", Args: []*Term{p}, Pos: pos, Fn: fn})
		st.suppose(tNot(isNil))
	}
}

func (in *Interp) checkIndex(st *State, base, idx *Term, t types.Type, pos token.Pos, fn *ssa.Function) {
	var n *Term
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			n = tInt(a.Len())
		}
	case *types.Array:
		n = tInt(u.Len())
	default:
		n = tLen(base)
	}
	if n != nil {
		hi, k1 := st.decide(tBin("<", idx, n))
		lo, k2 := st.decide(tBin("<", idx, tInt(0)))
		if !k1 {
			// below a length that is known to be not larger
			hi, k1 = in.belowLen(st, idx, n)
		}
		if k1 && hi && k2 && !lo {
			return
		}
	}
	st.event(Event{Kind: "panicsite", Name: "index", Args: []*Term{base, idx}, Pos: pos, Fn: fn})
}

// belowLen: idx < n follows from a literal m < idx' ... kept small on purpose.
func (in *Interp) belowLen(st *State, idx, n *Term) (bool, bool) {
	if k, ok := idx.intVal(); ok && n.Op == OpLen {
		lo, _, hasLo, _ := st.bounds(n)
		if hasLo && k < lo {
			return true, true
		}
	}
	// len(x)-1 where len(x) > 0
	if idx.Op == OpBin && idx.Name == "+" && idx.Args[0] == n {
		if m, ok := idx.Args[1].intVal(); ok && m < 0 {
			return true, true
		}
	}
	return false, false
}

func convert(v *Term, from, to types.Type) *Term {
	ft, tt := from.Underlying(), to.Underlying()
	fb, ok1 := ft.(*types.Basic)
	tb, ok2 := tt.(*types.Basic)
	if ok1 && ok2 {
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			if n, ok := v.intVal(); ok {
				return tStr(string(rune(n)))
			}
			return mk(Term{Op: OpConv, Name: "runestr", Args: []*Term{v}, Type: to})
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			if sizeOf(tb) >= sizeOf(fb) && signed(tb) == signed(fb) || sizeOf(tb) > sizeOf(fb) && signed(tb) {
				return v
			}
			if n, ok := v.intVal(); ok && n >= 0 && n < 128 {
				return v
			}
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0 && sizeOf(tb) >= sizeOf(fb):
			return v
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0, fb.Info()&types.IsBoolean != 0:
			return v
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0 && v.Op == OpConst:
			return tConst(constant.ToFloat(v.Val), nil)
		}
		return mk(Term{Op: OpConv, Typ: to, Args: []*Term{v}, Type: to})
	}
	if types.Identical(ft, tt) {
		if v.Op == OpStruct {
			return mk(Term{Op: OpStruct, Typ: to, Args: v.Args, Type: to})
		}
		if _, ok := ft.(*types.Struct); ok {
			return explodeAs(v, from, to)
		}
		return v
	}
	if types.IdenticalIgnoreTags(ft, tt) {
		return v
	}
	if sl, ok := ft.(*types.Slice); ok && ok2 && tb.Info()&types.IsString != 0 && v.Op == OpList {
		if e, ok := sl.Elem().Underlying().(*types.Basic); ok {
			if t, ok := textOf(v, e.Kind() == types.Uint8); ok {
				return t
			}
		}
	}
	return mk(Term{Op: OpConv, Typ: to, Args: []*Term{v}, Type: to})
}

// textOf is the text of a list of characters, or of the bytes of characters.
func textOf(v *Term, bytes bool) (*Term, bool) {
	var segs []*Term
	for i := 0; i < len(v.Args); i++ {
		a := v.Args[i]
		if a.Op == OpSpread && !bytes && a.Args[0].Op == OpCall && a.Args[0].Name == "runes" {
			segs = append(segs, a.Args[0].Args[0])
			continue
		}
		if a.Op != OpElem {
			return nil, false
		}
		x := a.Args[0]
		if n, ok := x.intVal(); ok && (!bytes || n < 128) {
			segs = append(segs, runeStr(x))
			continue
		}
		if !bytes {
			segs = append(segs, runeStr(x))
			continue
		}
		if sym, k, size, ok := isByteOf(x); ok {
			n := int64(1)
			for k == 0 && n < size && i+int(n) < len(v.Args) && v.Args[i+int(n)].Op == OpElem {
				s2, k2, _, ok := isByteOf(v.Args[i+int(n)].Args[0])
				if !ok || s2 != sym || k2 != n {
					break
				}
				n++
			}
			if k == 0 && n == size && size > 1 {
				segs = append(segs, runeStr(sym))
			} else {
				segs = append(segs, mk(Term{Op: OpCall, Name: "notext", Args: []*Term{sym, tInt(k), tInt(n)}, Type: types.Typ[types.String]}))
			}
			i += int(n) - 1
			continue
		}
		// a character of one byte
		if x.Op == OpSym && x.Type != nil && types.Identical(x.Type.Underlying(), types.Typ[types.Int32]) {
			segs = append(segs, runeStr(x))
			continue
		}
		return nil, false
	}
	return tConcat(segs...), true
}

func explodeAs(v *Term, from, to types.Type) *Term {
	e := explode(v, from)
	return mk(Term{Op: OpStruct, Typ: to, Args: e.Args, Type: to})
}

func sizeOf(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 4
	}
	return 8
}
func signed(b *types.Basic) bool { return b.Info()&types.IsUnsigned == 0 }

func (in *Interp) slice(fr *Frame, st *State, x *ssa.Slice) *Term {
	base := in.val(fr, st, x.X)
	var v *Term
	if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		arr := st.load(base, nil)
		if arr.Op == OpArray {
			var es []*Term
			for _, a := range arr.Args {
				es = append(es, tElem(a))
			}
			v = tList(es...)
		} else {
			v = arr
		}
	} else {
		v = base
	}
	if x.Low == nil && x.High == nil {
		return v
	}
	lo, hi := tInt(0), (*Term)(nil)
	if x.Low != nil {
		lo = in.val(fr, st, x.Low)
	}
	if x.High != nil {
		hi = in.val(fr, st, x.High)
	} else {
		hi = tLen(v)
	}
	if in.sliceHook != nil && len(fr.stack) == 1 {
		if t := in.sliceHook(st, x, lo, hi); t != nil {
			return t
		}
	}
	// obligations: 0 <= lo <= hi <= len (cap is not tracked)
	ok := true
	if c, known := st.decide(tBin("<", tLen(v), hi)); !known || c {
		ok = false
	}
	if c, known := st.decide(tBin("<", hi, lo)); !known || c {
		ok = false
	}
	if c, known := st.decide(tBin("<", lo, tInt(0))); !known || c {
		ok = false
	}
	if !ok {
		st.event(Event{Kind: "panicsite", Name: "slice", Args: []*Term{v, lo, hi}, Pos: x.Pos(), Fn: fr.fn})
	}
	if l, ok1 := lo.intVal(); ok1 {
		if s, ok := v.strVal(); ok {
			if h, ok := hi.intVal(); ok && l >= 0 && l <= h && int(h) <= len(s) {
				return tStr(s[l:h])
			}
		}
		if h, ok2 := hi.intVal(); ok2 && v.Op == OpList && int(h) <= len(v.Args) && l >= 0 && l <= h && minLen(v) == len(v.Args) {
			return tList(v.Args[l:h]...)
		}
		if l == 0 && hi == tLen(v) {
			return v
		}
		if v.Op == OpList && hi == tLen(v) && int(l) <= len(v.Args) {
			all := true
			for _, a := range v.Args[:l] {
				all = all && a.Op == OpElem
			}
			if all {
				return tList(v.Args[l:]...)
			}
		}
	}
	return mk(Term{Op: OpSliceX, Args: []*Term{v, lo, hi}, Type: x.Type()})
}

// mapContent is the value of a map.
func mapContent(st *State, m *Term) *Term {
	if m.Op == OpObj {
		if o := st.heap[m.Obj]; o != nil {
			return o.content
		}
	}
	if m.Op == OpPtr {
		return m.Args[0]
	}
	return m
}

func (in *Interp) mapUpdate(st *State, m, k, v *Term, pos token.Pos, fn *ssa.Function) {
	if m.Op != OpObj {
		st.event(Event{Kind: "store", Name: "map element", Args: []*Term{m, k, v}, Pos: pos, Fn: fn})
		return
	}
	o := st.heap[m.Obj]
	c := *o
	cont := o.content
	constKeys := cont.Op == OpMap && cont.Name == "known" && k.isConst()
	if constKeys {
		args := append([]*Term{}, cont.Args...)
		done := false
		for i := 0; i < len(args); i += 2 {
			if args[i] == k {
				args[i+1] = v
				done = true
			}
			if !args[i].isConst() {
				constKeys = false
			}
		}
		if !done {
			args = append(args, k, v)
		}
		if constKeys {
			c.content = mk(Term{Op: OpMap, Name: "known", Args: args, Type: o.typ})
		}
	}
	if !constKeys {
		c.content = mk(Term{Op: OpWith, Name: "map", Args: []*Term{cont, k, v}, Type: o.typ})
	}
	st.heap[m.Obj] = &c
	if !o.fresh || o.escaped {
		st.event(Event{Kind: "store", Name: "map element", Args: []*Term{st.objName(m.Obj), k, v}, Pos: pos, Fn: fn})
	}
}

type valState struct {
	v  *Term
	st *State
}

func (in *Interp) mapLookup(fr *Frame, st *State, x *ssa.Lookup) []valState {
	m, k := in.val(fr, st, x.X), st.norm(in.val(fr, st, x.Index))
	if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
		in.checkIndex(st, m, k, x.X.Type(), x.Pos(), fr.fn)
		t := tIndex(m, k)
		if t.Type == nil {
			t.Type = x.Type()
		}
		return []valState{{t, st}}
	}
	et := x.X.Type().Underlying().(*types.Map).Elem()
	mkRes := func(v *Term, ok *Term) *Term {
		if x.CommaOk {
			return tTuple(v, ok)
		}
		return v
	}
	c := mapContent(st, m)
	if c.Op == OpMap && c.Name == "known" {
		if k.isConst() {
			for i := 0; i+1 < len(c.Args); i += 2 {
				if c.Args[i] == k {
					return []valState{{mkRes(c.Args[i+1], tBool(true)), st}}
				}
			}
			return []valState{{mkRes(zero(et), tBool(false)), st}}
		}
		if len(c.Args) == 0 {
			return []valState{{mkRes(zero(et), tBool(false)), st}}
		}
		if len(c.Args) <= 40 {
			var res []valState
			miss := st
			for i := 0; i+1 < len(c.Args); i += 2 {
				t, f := in.cases(miss, tBin("==", k, c.Args[i]))
				for _, s := range t {
					res = append(res, valState{mkRes(c.Args[i+1], tBool(true)), s})
				}
				if len(f) == 0 {
					miss = nil
					break
				}
				miss = f[0]
				if len(f) > 1 {
					in.fail("map lookup on compound key in %s", fr.fn)
				}
			}
			if miss != nil {
				res = append(res, valState{mkRes(zero(et), tBool(false)), miss})
			}
			return res
		}
	}
	v := mk(Term{Op: OpLookup, Args: []*Term{c, k}, Type: et})
	ok := mk(Term{Op: OpLookupOk, Args: []*Term{c, k}, Type: types.Typ[types.Bool]})
	return []valState{{mkRes(v, ok), st}}
}

// negation recognises 0-x and -1*x.
func negation(x *ssa.BinOp, a, b *Term) *Term {
	bt, ok := x.X.Type().Underlying().(*types.Basic)
	if !ok || bt.Info()&(types.IsInteger|types.IsFloat) == 0 || a.Op == OpConst && b.Op == OpConst {
		return nil
	}
	switch x.Op {
	case token.SUB:
		if n, ok := a.intVal(); ok && n == 0 && bt.Info()&types.IsInteger != 0 {
			return tUn("-", b)
		}
	case token.MUL:
		for i, v := range []*Term{a, b} {
			if v.Op != OpConst || v.Val == nil {
				continue
			}
			if f := constant.ToFloat(v.Val); f.Kind() == constant.Float && constant.Compare(f, token.EQL, constant.MakeInt64(-1)) {
				return tUn("-", []*Term{b, a}[i])
			}
		}
	}
	return nil
}

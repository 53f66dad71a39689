package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// depthCap is where depths are given up on from a state on.
func depthCap(st *State) int64 {
	if d := st.gh.depth; d != nil {
		if v, ok := d.intVal(); ok {
			return v + deepest
		}
	}
	return deepest
}

// loop explores a loop over normalised header states.
func (p *product) loop(in *Interp, fr *Frame, st *State, from, header *ssa.BasicBlock, nl *natLoop, init map[*ssa.Phi]*Term) []Outcome {
	p.seq++
	ep := fmt.Sprintf("w%d", p.seq)
	was := p.cur
	p.cur = fr.fn
	defer func() { p.cur = was }()
	var phis []*ssa.Phi
	var ptypes []types.Type
	for _, i := range header.Instrs {
		if x, ok := i.(*ssa.Phi); ok {
			phis = append(phis, x)
			ptypes = append(ptypes, x.Type())
		}
	}
	vec := func(m map[*ssa.Phi]*Term) []*Term {
		var r []*Term
		for _, x := range phis {
			v := m[x]
			if v.Type == nil && v.Op != OpConst {
				v.Type = x.Type()
			}
			r = append(r, v)
		}
		return r
	}
	sc := scope{ep: ep, prot: map[*Term]bool{}, objs: map[int]bool{}, next: st.nextObj, base: st, cap: depthCap(st)}
	for k := range st.dom {
		sc.prot[k] = true
	}
	for id := range st.heap {
		sc.objs[id] = true
	}
	protDepth(sc.prot, st)
	marks := len(st.gh.adv)
	type node struct {
		st  *State
		phi []*Term

		done bool
	}
	type edge struct{ from, to, w int }
	var edges []edge
	var work []int
	var nodes []node
	index := map[string][]int{}
	wide := map[string]map[int]bool{}
	where := fmt.Sprintf("%s#%d", fr.fn, p.seq)
	var exits, others []Outcome
	arrive := func(s *State, phi []*Term, from int) {
		for _, a := range p.sync(s, false) {
			bs, rs := p.splitBools(a, phi)
			for i, b := range bs {
				ds, rs2 := p.splitDepth(b, rs[i], sc.prot)
				for j, d := range ds {
					w := 0
					if from >= 0 {
						w = p.popMark(d)
					}
					n := normal{st: d, roots: rs2[j], back: map[*Term]*Term{}}
					if from >= 0 {
						n = p.norm(d, rs2[j], sc)
						n.widen(wide, ep, ptypes)
						if w > 0 {
							p.forgetAhead(&n, sc.prot)
						}
						p.deepen(&n, where, ep, ptypes, sc.cap)
					}
					k := n.core(marks)
					to := -1
					for _, x := range index[k] {
						c, j := covers(n.st.dom, nodes[x].st.dom)
						if c {
							to = x
							break
						}
						if j != nil && !nodes[x].done {
							nodes[x].st.dom = j
							to = x
							break
						}
					}
					if to < 0 {
						to = len(nodes)
						index[k] = append(index[k], to)
						nodes = append(nodes, node{n.st, n.roots, false})
						debugf("loop %s %s node %d %s", fr.fn.Name(), ep, to, n.key(marks))
						work = append(work, to)
						p.nodes++
						if len(nodes) > 4000 {
							in.fail("the loop in %s has too many states", fr.fn)
						}
					}
					if from >= 0 {
						edges = append(edges, edge{from, to, w})
					}
				}
			}
		}
	}
	arrive(st, vec(init), -1)
	for len(work) > 0 {
		i := work[len(work)-1]
		work = work[:len(work)-1]
		nodes[i].done = true
		f := fr.clone()
		f.unroll = map[*ssa.BasicBlock]int{}
		f.loops = append(append([]*loopAct{}, fr.loops...), &loopAct{header, nl.blocks})
		for k, x := range phis {
			f.env[x] = nodes[i].phi[k]
		}
		s := nodes[i].st.clone()
		p.pushMark(s)
		outs := in.exec(f, s, header, 0)
		for k := range outs {
			o := outs[k]
			switch o.Kind {
			case "back":
				arrive(o.St, vec(in.phiValues(o.fr, o.St, o.from, header)), i)
			case "leave":
				p.popMark(o.St)
				exits = append(exits, o)
			default:
				p.popMark(o.St)
				others = append(others, o)
			}
		}
	}
	// a cycle of states that consumes nothing goes on for ever
	n := len(nodes)
	dist := make([]int, n)
	bad := false
	for r := 0; r <= n; r++ {
		ch := false
		for _, e := range edges {
			w := e.w*(n+1) - 1
			if dist[e.from]+w < dist[e.to] {
				dist[e.to] = dist[e.from] + w
				ch = true
			}
		}
		if !ch {
			break
		}
		if r == n {
			bad = true
		}
	}
	if bad {
		p.viol("C02", "progress", shortFn(fr.fn), "loop", header.Instrs[0].Pos(), "the loop can come back to the same state without having consumed input, for example at the end of input or when reading fails")
	}
	p.reached["loops"]++
	for _, o := range exits {
		o.fr.loops = fr.loops
		others = append(others, in.enter(o.fr, o.St, o.from, o.to)...)
	}
	return others
}

// call interprets a tabulated function by looking its entry state up in the table of what it does from there.
func (p *product) call(fr *Frame, st *State, f *ssa.Function, args, bindings []*Term, pos token.Pos) []Outcome {
	if len(bindings) > 0 {
		p.in.fail("recursive closure %s", f)
	}
	var ptypes []types.Type
	for _, x := range f.Params {
		ptypes = append(ptypes, x.Type())
	}
	var outs []Outcome
	for _, a := range p.sync(st, false) {
		bs, rs := p.splitBools(a, args)
		for i, b := range bs {
			ds, rs2 := p.splitDepth(b, rs[i], nil)
			for j, d := range ds {
				outs = append(outs, p.enterRec(f, d, rs2[j], ptypes)...)
			}
		}
	}
	return outs
}

func (p *product) bareBase(st *State) *State {
	b := newState()
	b.prod = p
	// facts about errors hold everywhere
	for _, l := range st.lits {
		ok := true
		anyTerm(l, func(x *Term) bool {
			if x.Op == OpSym && !p.consts[x] {
				ok = false
			}
			return false
		})
		if ok {
			b.lits = append(b.lits, l)
			b.litSet[l] = true
		}
	}
	return b
}

func (p *product) enterRec(f *ssa.Function, st *State, args []*Term, ptypes []types.Type) []Outcome {
	ep := "f." + f.Name()
	base := p.bareBase(st)
	n := p.norm(st, args, scope{ep: ep, prot: map[*Term]bool{}, objs: map[int]bool{}, next: 1, base: base, cap: deepest})
	p.deepen(&n, "call "+f.String(), ep, ptypes, deepest)
	n.st.gh = n.st.gh.with(func(g *ghost) { g.adv = nil })
	key := f.String() + "|" + n.key(0)
	e := p.table[key]
	if e == nil {
		s := n.st
		p.pushMark(s)
		e = &recEntry{key: key, fn: f, st: s, args: n.roots, iter: -1}
		p.table[key] = e
		debugf("entry %d %s", len(p.order), key)
		p.order = append(p.order, e)
		if len(p.order) > 4000 {
			p.in.fail("%s is called in too many ways", f)
		}
	}
	if p.curRec != "" && len(st.gh.adv) > 0 {
		k := [2]string{p.curRec, key}
		if w, ok := p.calls[k]; !ok || st.gh.adv[0] < w {
			p.calls[k] = st.gh.adv[0]
		}
	}
	p.compute(e)
	var outs []Outcome
	for _, r := range e.results {
		outs = append(outs, p.inst(st, &n, r))
	}
	return outs
}

// inst is a result of a function from the table, in terms of the caller.
func (p *product) inst(st *State, n *normal, r recResult) Outcome {
	p.seq++
	ce := fmt.Sprintf("c%d", p.seq)
	// names of the callee
	m := map[*Term]*Term{}
	for k, v := range n.back {
		m[k] = v
	}
	s := st.clone()
	var newIDs []int
	for id := range r.st.heap {
		newIDs = append(newIDs, id)
	}
	sort.Ints(newIDs)
	for _, id := range newIDs {
		if old, ok := n.obj[id]; ok {
			m[tObj(id)] = tObj(old)
		} else {
			m[tObj(id)] = tObj(s.nextObj)
			s.nextObj++
		}
	}
	fresh := func(t *Term) {
		anyTerm(t, func(x *Term) bool {
			if x.Op == OpSym && m[x] == nil && !p.consts[x] {
				m[x] = tSymT(ce+"/"+x.Name, x.Type)
				if d, ok := p.depths[x]; ok {
					p.depths[m[x]] = d
				}
			}
			return false
		})
	}
	for _, id := range newIDs {
		fresh(r.st.heap[id].content)
	}
	for _, t := range r.res {
		fresh(t)
	}
	for sym := range r.st.dom {
		fresh(sym)
	}
	fresh(r.st.gh.lines)
	if r.st.gh.depth != nil {
		fresh(r.st.gh.depth)
	}
	for _, t := range r.st.gh.text {
		fresh(t)
	}
	memo := map[*Term]*Term{}
	g := func(t *Term) *Term { return subst(t, m, memo) }
	for _, id := range newIDs {
		o := *r.st.heap[id]
		o.content = g(o.content)
		nid := m[tObj(id)].Obj
		if was := s.heap[nid]; was != nil {
			o.fresh, o.base, o.glob, o.escaped = was.fresh, was.base, was.glob, was.escaped
		}
		s.heap[nid] = &o
	}
	for sym, d := range r.st.dom {
		s.dom[g(sym)] = d
	}
	rs := r.st.stream
	ns := &Stream{Epoch: ce, CanUnrd: rs.CanUnrd, Kinds: map[int]string{}, Elems: map[int]*Term{}, Touched: true, Pos: rs.Pos}
	for k, v := range rs.Kinds {
		ns.Kinds[k] = v
		if v == "rune" {
			ns.Elems[k] = g(rs.elem(k))
			if _, ok := s.dom[ns.Elems[k]]; !ok {
				if d, ok := r.st.dom[rs.elem(k)]; ok {
					s.dom[ns.Elems[k]] = d
				}
			}
		}
	}
	s.stream = ns
	callerAdv := st.gh.adv
	adv := 0
	if len(r.st.gh.adv) > 0 {
		adv = r.st.gh.adv[0]
	}
	s.gh = r.st.gh.with(func(x *ghost) {
		x.adv = callerAdv
		x.lines = g(x.lines)
		if x.depth != nil {
			x.depth = g(x.depth)
		}
		var tx []*Term
		for _, t := range x.text {
			tx = append(tx, g(t))
		}
		x.text = tx
		var pd []pendErr
		for _, e := range x.pend {
			var fs []*Term
			for _, f := range e.found {
				fs = append(fs, g(f))
			}
			e.found = fs
			pd = append(pd, e)
		}
		x.pend = pd
	})
	p.advance(s, adv)
	var res []*Term
	for _, t := range r.res {
		res = append(res, g(t))
	}
	return Outcome{Kind: "ret", Results: res, St: s}
}

func protDepth(prot map[*Term]bool, st *State) {
	if st.gh.depth != nil {
		anyTerm(st.gh.depth, func(x *Term) bool {
			if x.Op == OpSym {
				prot[x] = true
			}
			return false
		})
	}
}

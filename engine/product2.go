package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
)

// scope tells what keeps its name when a state is normalised.
type scope struct {
	ep   string
	prot map[*Term]bool
	objs map[int]bool
	next int
	base *State
	cap  int64 // least value of nesting depths that are not told apart
}

type normal struct {
	st    *State
	roots []*Term
	back  map[*Term]*Term // what new symbols stood for
	obj   map[int]int     // what new objects were
	chars []*Term
}

func isTextSeg(t *Term) bool {
	return t.Op == OpConv && t.Name == "runestr" || t.Op == OpSym || t.Op == OpConst
}

// middle of a text that can be collapsed, and what takes its place.
func textMiddle(t *Term) (mid []*Term, rebuild func(m *Term) *Term) {
	switch t.Op {
	case OpConcat:
		n := len(t.Args)
		if n < 3 {
			return nil, nil
		}
		for _, a := range t.Args {
			if !isTextSeg(a) {
				return nil, nil
			}
		}
		return t.Args[1 : n-1], func(m *Term) *Term { return tConcat(t.Args[0], m, t.Args[n-1]) }
	case OpList:
		n := len(t.Args)
		if n < 3 {
			return nil, nil
		}
		for i, a := range t.Args {
			switch {
			case a.Op == OpElem && (a.Args[0].Op == OpSym || a.Args[0].Op == OpConst):
				s := runeStr(a.Args[0])
				if i > 0 && i < n-1 {
					mid = append(mid, s)
				}
			case a.Op == OpSpread && a.Args[0].Op == OpCall && a.Args[0].Name == "runes" && i > 0 && i < n-1:
				mid = append(mid, a.Args[0].Args[0])
			default:
				return nil, nil
			}
		}
		return mid, func(m *Term) *Term {
			return tList(t.Args[0], tSpread(tCall("runes", m)), t.Args[n-1])
		}
	}
	return nil, nil
}

// norm gives the same state with names that do not depend on how it was reached.
func (p *product) norm(st *State, roots []*Term, sc scope) normal {
	failed := p.failedRun(st)
	g := st.gh
	var nroots []*Term
	for _, r := range roots {
		nroots = append(nroots, st.norm(r))
	}
	// objects in order
	var ids []int
	for id := range sc.objs {
		if st.heap[id] != nil {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	known := map[int]bool{}
	for _, id := range ids {
		known[id] = true
	}
	seen := map[*Term]bool{}
	var found []int
	var scan func(t *Term)
	scan = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OpObj && !known[t.Obj] && st.heap[t.Obj] != nil {
			known[t.Obj] = true
			found = append(found, t.Obj)
		}
		for _, a := range t.Args {
			scan(a)
		}
	}
	for _, r := range nroots {
		scan(r)
	}
	for _, id := range ids {
		scan(st.heap[id].content)
	}
	for i := 0; i < len(found); i++ {
		scan(st.heap[found[i]].content)
	}
	for key, id := range st.symObj {
		if _, ok := sc.base.symObj[key]; ok && sc.objs[id] || known[id] {
			continue
		}
		o := st.heap[id]
		if o.glob != nil {
			if c := p.in.pr.globalContent(o.glob); c == nil || c != o.content {
				if c != nil || o.content != tSymT("global:"+o.glob.String(), o.typ) {
					p.in.fail("package variable %s is changed while input is read", o.glob)
				}
			}
			continue
		}
		if o.content != derefDefault(o.base, o.typ) {
			p.in.fail("memory at %s is changed while input is read", clean(o.base))
		}
	}
	// texts
	all := func(f func(t *Term) *Term) (rs []*Term, heap map[int]*Term, gh *ghost) {
		for _, r := range nroots {
			rs = append(rs, f(r))
		}
		heap = map[int]*Term{}
		for _, id := range append(append([]int{}, ids...), found...) {
			heap[id] = f(st.heap[id].content)
		}
		gh = g.with(func(g *ghost) {
			if len(g.text) > 0 {
				t := f(tConcat(g.text...))
				if t.Op == OpConcat {
					g.text = t.Args
				} else {
					g.text = []*Term{t}
				}
			}
			g.lines = f(g.lines)
			if g.depth != nil {
				g.depth = f(g.depth)
			}
		})
		return
	}
	col := map[*Term]*Term{}
	tau := map[string]*Term{}
	tauVal := map[*Term]*Term{}
	visited := map[*Term]bool{}
	key := func(mid []*Term) string {
		k := ""
		for _, m := range mid {
			k += fmt.Sprint(m.id, ",")
		}
		return k
	}
	middle := func(mid []*Term) *Term {
		k := key(mid)
		if tau[k] == nil {
			tau[k] = tSymT(fmt.Sprintf("tmp.t%d", len(tau)), types.Typ[types.String])
			tauVal[tau[k]] = tConcat(mid...)
		}
		return tau[k]
	}
	var texts func(t *Term)
	texts = func(t *Term) {
		if visited[t] {
			return
		}
		visited[t] = true
		if mid, reb := textMiddle(t); mid != nil {
			if len(mid) == 1 && mid[0].Op == OpSym {
				return
			}
			col[t] = reb(middle(mid))
			return
		}
		for _, a := range t.Args {
			texts(a)
		}
	}
	for _, r := range nroots {
		texts(r)
	}
	for _, id := range append(append([]int{}, ids...), found...) {
		texts(st.heap[id].content)
	}
	if len(g.text) > 1 {
		// what the specification has lags behind, it can be all of the text but the last character
		t := tConcat(g.text...)
		if tau[key(g.text[1:])] != nil {
			col[t] = tConcat(g.text[0], tau[key(g.text[1:])])
		} else {
			texts(t)
		}
	}
	memo := map[*Term]*Term{}
	rs, heap, gh := all(func(t *Term) *Term { return subst(t, col, memo) })

	// names
	ren := map[*Term]*Term{}
	back := map[*Term]*Term{}
	objOld := map[int]int{}
	for i, id := range found {
		ren[tObj(id)] = tObj(sc.next + i)
		objOld[sc.next+i] = id
	}
	str := st.stream
	win := map[*Term]int{}
	from := str.Pos
	if gh.sp < from {
		from = gh.sp
	}
	if str.CanUnrd && str.Pos-1 < from {
		from = str.Pos - 1
	}
	var poss []int
	for i := from; i < str.Pos; i++ {
		poss = append(poss, i)
	}
	var later []int
	for k := range str.Kinds {
		if k >= str.Pos {
			later = append(later, k)
		}
	}
	sort.Ints(later)
	poss = append(poss, later...)
	for _, i := range poss {
		if i < str.Pos || str.Kinds[i] == "rune" {
			win[str.elem(i)] = i
		}
	}
	// lines
	base, off := gh.lines, int64(0)
	if failed {
		// lines do not matter any more
		nm := map[*Term]*Term{}
		rs, gh = blurAll(rs, base, nm), gh.with(func(g *ghost) { g.lines = tSymT("⊤line", types.Typ[types.Int]) })
		for id, t := range heap {
			heap[id] = blur(t, base, nm)
		}
		base = gh.lines
	}
	if base.Op == OpBin && base.Name == "+" {
		off, _ = base.Args[1].intVal()
		base = base.Args[0]
	}
	if p.consts[base] {
	} else {
		lam := tSymT(sc.ep+"λ", types.Typ[types.Int])
		ren[base] = tBin("+", lam, tInt(-off))
		back[lam] = tBin("+", base, tInt(off))
	}
	if gh.depth != nil && !gh.depth.isConst() {
		base, off := gh.depth, int64(0)
		if base.Op == OpBin && base.Name == "+" {
			off, _ = base.Args[1].intVal()
			base = base.Args[0]
		}
		if !sc.prot[base] {
			del := p.depthSym(sc.ep, p.dmin(base)+off, sc.cap)
			ren[base] = tBin("+", del, tInt(-off))
			back[del] = tBin("+", base, tInt(off))
		}
	}
	var chars []*Term
	nr, nx, nt := 0, 0, 0
	name := func(s *Term) {
		if sc.prot[s] || p.consts[s] || ren[s] != nil {
			return
		}
		var n *Term
		if _, ok := st.dom[s]; ok {
			if i, ok := win[s]; ok {
				n = tSymT(fmt.Sprintf("%s.%d", sc.ep, i-str.Pos), s.Type)
			} else {
				n = tSymT(fmt.Sprintf("%s.r%d", sc.ep, nr), s.Type)
				nr++
			}
			chars = append(chars, n)
		} else if strings.HasPrefix(s.Name, "tmp.t") {
			n = tSymT(fmt.Sprintf("%s.t%d", sc.ep, nt), s.Type)
			nt++
		} else {
			n = tSymT(fmt.Sprintf("%s.x%d", sc.ep, nx), s.Type)
			nx++
		}
		ren[s] = n
		if v := tauVal[s]; v != nil {
			back[n] = v
		} else {
			back[n] = s
		}
	}
	named := map[*Term]bool{}
	var names func(t *Term)
	names = func(t *Term) {
		if named[t] {
			return
		}
		named[t] = true
		if t.Op == OpSym {
			name(t)
		}
		for _, a := range t.Args {
			names(a)
		}
	}
	for _, r := range rs {
		names(r)
	}
	for _, id := range ids {
		names(heap[id])
	}
	for _, id := range found {
		names(heap[id])
	}
	for _, i := range poss {
		if i < str.Pos || str.Kinds[i] == "rune" {
			names(str.elem(i))
		}
	}
	for _, t := range gh.text {
		names(t)
	}
	if gh.depth != nil {
		names(gh.depth)
	}
	memo = map[*Term]*Term{}
	f := func(t *Term) *Term { return subst(t, ren, memo) }

	n := &State{heap: map[int]*heapObj{}, symObj: map[*Term]int{}, nextObj: sc.next + len(found), litSet: map[*Term]bool{}, eq: map[*Term]*Term{}, dom: map[*Term]runeSet{}, seq: map[string]int{}, prod: p}
	for k := range sc.base.litSet {
		n.litSet[k] = true
	}
	for k, v := range sc.base.eq {
		n.eq[k] = v
	}
	for k, v := range sc.base.seq {
		n.seq[k] = v
	}
	n.lits = append([]*Term{}, sc.base.lits...)
	n.implied = append([]*Term{}, sc.base.implied...)
	n.events = append([]Event{}, sc.base.events...)
	for _, id := range ids {
		o := *st.heap[id]
		o.content = f(heap[id])
		n.heap[id] = &o
	}
	for i, id := range found {
		o := *st.heap[id]
		o.content = f(heap[id])
		n.heap[sc.next+i] = &o
	}
	for key, id := range st.symObj {
		if n.heap[id] != nil && sc.objs[id] {
			n.symObj[key] = id
		} else if t := ren[tObj(id)]; t != nil {
			n.symObj[f(key)] = t.Obj
		}
	}
	for s, d := range st.dom {
		if sc.prot[s] {
			n.dom[s] = d
		} else if r := ren[s]; r != nil {
			n.dom[r] = d
		}
	}
	ns := &Stream{Epoch: sc.ep, CanUnrd: str.CanUnrd, Kinds: map[int]string{}, Elems: map[int]*Term{}, Touched: true}
	for _, i := range poss {
		k := str.Kinds[i]
		if i < str.Pos {
			k = "rune"
		}
		ns.Kinds[i-str.Pos] = k
		if k == "rune" {
			ns.Elems[i-str.Pos] = f(str.elem(i))
		}
	}
	n.stream = ns
	n.gh = gh.with(func(g *ghost) {
		g.sp -= str.Pos
		g.endPos -= str.Pos
		if g.mode != "end" {
			g.endPos = 0
		}
		var tx []*Term
		for _, t := range g.text {
			tx = append(tx, f(t))
		}
		g.text = tx
		g.lines = f(g.lines)
		if g.depth != nil {
			g.depth = f(g.depth)
		}
	})
	var nrs []*Term
	for _, r := range rs {
		nrs = append(nrs, f(r))
	}
	return normal{st: n, roots: nrs, back: back, obj: objOld, chars: chars}
}

// failedRun tells whether an error was due and is recorded: the rest of the run only has to end.
func (p *product) failedRun(st *State) bool {
	g := st.gh
	if g.mode != "doom" || len(g.pend) > 0 {
		return false
	}
	for _, o := range st.heap {
		if o.typ != nil && types.Identical(o.typ, p.lexType) {
			if st.norm(tField(o.content, p.errFld, fieldType(o.typ, p.errFld))).Op == OpNil {
				return false
			}
			if g.need != "" {
				p.reached["error: "+g.why]++
			}
			st.gh = &ghost{mode: "doom", lines: g.lines, cr: false, sp: st.stream.Pos, adv: g.adv}
			return true
		}
	}
	return false
}

// blur replaces what is computed from a number.
func blur(t, base *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	r := t
	root := base
	if base.Op == OpBin {
		root = base.Args[0]
	}
	switch {
	case t == root || t.Op == OpBin && strings.Contains("+-*/%", t.Name) && contains(t, root):
		r = tSymT("⊤line", types.Typ[types.Int])
	case len(t.Args) > 0:
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = blur(a, base, memo)
			ch = ch || args[i] != a
		}
		if ch {
			r = rebuild(t, args)
		}
	}
	memo[t] = r
	return r
}

func blurAll(ts []*Term, base *Term, memo map[*Term]*Term) []*Term {
	var rs []*Term
	for _, t := range ts {
		rs = append(rs, blur(t, base, memo))
	}
	return rs
}

func domKey(d runeSet) string {
	return fmt.Sprintf("%x", d)
}

func (n *normal) key(marks int) string {
	var ds []string
	for sym, d := range n.st.dom {
		ds = append(ds, fmt.Sprintf("%09d:%s", sym.id, domKey(d)))
	}
	sort.Strings(ds)
	return n.core(marks) + strings.Join(ds, " ")
}

// core is the key of a state without what its characters can be.
func (n *normal) core(marks int) string {
	var b strings.Builder
	for _, r := range n.roots {
		fmt.Fprintf(&b, "%d,", r.id)
	}
	var ids []int
	for id := range n.st.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		fmt.Fprintf(&b, "|%d:%d", id, n.st.heap[id].content.id)
	}
	s := n.st.stream
	fmt.Fprintf(&b, "|S%v", s.CanUnrd)
	var ks []int
	for k := range s.Kinds {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, " %d%s", k, s.Kinds[k])
		if e := s.Elems[k]; e != nil {
			fmt.Fprintf(&b, "=%d", e.id)
		}
	}
	b.WriteString(n.st.gh.keyAdv(marks))
	return b.String()
}

// locations visits the integer and text locations of a normal state; f gives what replaces them.
func (n *normal) locations(f func(loc string, typ types.Type, v *Term) *Term, rootTypes []types.Type) {
	var visit func(loc string, typ types.Type, v *Term) *Term
	visit = func(loc string, typ types.Type, v *Term) *Term {
		if typ == nil {
			return v
		}
		if so, ok := typ.Underlying().(*types.Struct); ok {
			for i := 0; i < so.NumFields(); i++ {
				ft := so.Field(i).Type()
				switch ft.Underlying().(type) {
				case *types.Struct, *types.Basic:
				default:
					continue
				}
				old := tField(v, so.Field(i).Name(), ft)
				nv := visit(loc+"."+so.Field(i).Name(), ft, old)
				if nv != old {
					v = setField(v, typ, so.Field(i).Name(), nv)
				}
			}
			return v
		}
		return f(loc, typ, v)
	}
	for i := range n.roots {
		var t types.Type
		if i < len(rootTypes) {
			t = rootTypes[i]
		}
		n.roots[i] = visit(fmt.Sprintf("root%d", i), t, n.roots[i])
	}
	for id, o := range n.st.heap {
		if o.glob != nil || o.content.Op == OpCall {
			continue
		}
		c := visit(fmt.Sprintf("obj%d", id), o.typ, o.content)
		if c != o.content {
			x := *o
			x.content = c
			n.st.heap[id] = &x
		}
	}
}

// widen gives up on integer locations that take too many values.
func (n *normal) widen(seen map[string]map[int]bool, ep string, rootTypes []types.Type) {
	n.locations(func(loc string, typ types.Type, v *Term) *Term {
		b, ok := typ.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 && b.Info()&types.IsString == 0 {
			return v
		}
		m := seen[loc]
		if m == nil {
			m = map[int]bool{}
			seen[loc] = m
		}
		m[v.id] = true
		if len(m) > 12 {
			return tSymT(ep+".⊤"+loc, typ)
		}
		return v
	}, rootTypes)
}

// splitBools makes truth values in memory and among the roots constant.
func (p *product) splitBools(st *State, roots []*Term) (sts []*State, rts [][]*Term) {
	isB := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsBoolean != 0
	}
	var find func(typ types.Type, v *Term) *Term
	find = func(typ types.Type, v *Term) *Term {
		if typ == nil {
			return nil
		}
		if isB(typ) {
			if !v.isConst() && v.Op != OpSym {
				return v
			}
			return nil
		}
		if so, ok := typ.Underlying().(*types.Struct); ok && v.Op == OpStruct {
			for i := 0; i < so.NumFields() && i < len(v.Args); i++ {
				if x := find(so.Field(i).Type(), v.Args[i]); x != nil {
					return x
				}
			}
		}
		return nil
	}
	var c *Term
	for _, r := range roots {
		if r.Type != nil && isB(r.Type) || r.Op == OpBin && (r.Name == "==" || r.Name == "<") || r.Op == OpNot || r.Op == OpAnd {
			if !r.isConst() && r.Op != OpSym {
				c = r
				break
			}
		}
	}
	if c == nil {
		var ids []int
		for id := range st.heap {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			if o := st.heap[id]; o.glob == nil {
				if c = find(o.typ, o.content); c != nil {
					break
				}
			}
		}
	}
	if c == nil {
		return []*State{st}, [][]*Term{roots}
	}
	t, f := p.in.cases(st, c)
	for i, list := range [][]*State{t, f} {
		for _, s := range list {
			m := map[*Term]*Term{c: tBool(i == 0)}
			memo := map[*Term]*Term{}
			var rs []*Term
			for _, r := range roots {
				rs = append(rs, subst(r, m, memo))
			}
			for id, o := range s.heap {
				if n := subst(o.content, m, memo); n != o.content {
					x := *o
					x.content = n
					s.heap[id] = &x
				}
			}
			a, b := p.splitBools(s, rs)
			sts = append(sts, a...)
			rts = append(rts, b...)
		}
	}
	return
}

const deepest = 3 // nesting this much deeper than at the start of a loop or function is not told apart

func (p *product) dmin(sym *Term) int64 {
	m, ok := p.depths[sym]
	if !ok {
		p.in.fail("nesting depth %s", sym)
	}
	return m
}

// depthSym stands for a nesting depth of at least min, or of at least max if that is less.
func (p *product) depthSym(ep string, min, max int64) *Term {
	if min > max && max > 0 {
		min = max
	}
	s := tSymT(fmt.Sprintf("%s.δ%d", ep, min), types.Typ[types.Int])
	p.depths[s] = min
	return s
}

// ofEntry says whether a depth is near the depth at the start of the function.
func (p *product) ofEntry(d *Term, prot map[*Term]bool) bool {
	k := int64(0)
	if d != nil && d.Op == OpBin && d.Name == "+" {
		k, _ = d.Args[1].intVal()
		d = d.Args[0]
	}
	return d != nil && d.Op == OpSym && prot[d] && k >= -2 && k <= 2
}

// splitDepth keeps the nesting depth of the specification either small and constant, or a symbol that is at least 3.
func (p *product) splitDepth(st *State, roots []*Term, prot map[*Term]bool) (sts []*State, rts [][]*Term) {
	one := func() ([]*State, [][]*Term) { return []*State{st}, [][]*Term{roots} }
	d := st.gh.depth
	if d == nil || d.isConst() {
		return one()
	}
	sym, k := d, int64(0)
	if d.Op == OpBin && d.Name == "+" {
		sym = d.Args[0]
		k, _ = d.Args[1].intVal()
	}
	if sym.Op != OpSym {
		p.in.fail("depth is %s", d)
	}
	if k >= 0 && (prot == nil || prot[sym] && k <= 2) {
		return one()
	}
	apply := func(s *State, m map[*Term]*Term) ([]*Term, *State) {
		memo := map[*Term]*Term{}
		var rs []*Term
		for _, r := range roots {
			rs = append(rs, subst(r, m, memo))
		}
		for id, o := range s.heap {
			if n := subst(o.content, m, memo); n != o.content {
				x := *o
				x.content = n
				s.heap[id] = &x
			}
		}
		s.gh = s.gh.with(func(g *ghost) { g.depth = subst(g.depth, m, memo) })
		return rs, s
	}
	m := p.dmin(sym)
	nd := p.depthSym(fmt.Sprintf("s%d", p.seq), m, 0)
	p.seq++
	for v := m + k; v < m; v++ {
		if v <= 0 {
			p.in.fail("nesting depth drifts by %d", k)
		}
		rs, s := apply(st.clone(), map[*Term]*Term{sym: tInt(v - k)})
		sts = append(sts, s)
		rts = append(rts, rs)
	}
	rs, s := apply(st, map[*Term]*Term{sym: tBin("+", nd, tInt(-k))})
	sts = append(sts, s)
	rts = append(rts, rs)
	return
}

// deepen replaces depth 3 by a symbol, together with locations that run along with it.
func (p *product) deepen(n *normal, where, ep string, rootTypes []types.Type, max int64) {
	d := n.st.gh.depth
	if d == nil {
		return
	}
	dv, ok := d.intVal()
	if !ok {
		return
	}
	rec := p.lockst[where]
	if rec == nil {
		rec = map[string][2]int64{}
		p.lockst[where] = rec
	}
	// the specification can be one character behind
	ed := dv
	if g, str := n.st.gh, n.st.stream; g.mode == "block" && g.sp == str.Pos-1 && str.Kinds[g.sp] == "rune" {
		only := func(c rune) bool {
			var d runeSet
			d.add(c)
			x, ok := n.st.dom[str.elem(g.sp)]
			return ok && x == d
		}
		switch {
		case g.prev == '*' && only('/'):
			ed--
		case g.prev == '/' && only('*'):
			ed++
		}
	}
	// rec[loc] = {offset, bits of depths seen; -1 when out of step}
	var sym *Term
	if dv >= max {
		sym = p.depthSym(ep, max, 0)
		n.back[sym] = d
	}
	n.locations(func(loc string, typ types.Type, v *Term) *Term {
		b, ok := typ.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			return v
		}
		iv, ok := v.intVal()
		r, had := rec[loc]
		if sym != nil {
			if ok && had && r[1] > 0 && r[1]&(r[1]-1) != 0 && iv-ed == r[0] {
				return tBin("+", sym, tInt(iv-dv))
			}
			return v
		}
		switch {
		case !ok:
			rec[loc] = [2]int64{0, -1}
		case !had:
			rec[loc] = [2]int64{iv - ed, 1 << ed}
		case r[1] >= 0 && r[0] == iv-ed:
			rec[loc] = [2]int64{r[0], r[1] | 1<<ed}
		default:
			rec[loc] = [2]int64{0, -1}
		}
		return v
	}, rootTypes)
	if sym != nil {
		n.st.gh = n.st.gh.with(func(g *ghost) { g.depth = sym })
	}
}

// compute makes sure that the results of an entry are known, as far as they can be while entries it depends on are
// being computed.
func (p *product) compute(e *recEntry) {
	use := func(low int) {
		if n := len(p.stack); n > 0 && low < p.stack[n-1].low {
			p.stack[n-1].low = low
		}
	}
	switch {
	case e.final:
		return
	case e.running:
		e.self = true
		use(e.depth)
		return
	case e.iter == p.iter:
		use(e.low)
		return
	}
	e.depth = len(p.stack)
	e.running = true
	wasRec, wasFn := p.curRec, p.cur
	p.stack = append(p.stack, e)
	for round := 0; ; round++ {
		e.low = e.depth
		e.loose = nil
		grown := p.growth
		p.curRec, p.cur = e.key, e.fn
		p.body(e)
		if e.low < e.depth {
			break
		}
		if p.growth == grown || len(e.loose) == 0 && !e.self {
			// nothing that is not known for good was used
			e.final = true
			for _, x := range e.loose {
				x.final = true
			}
			break
		}
		p.iter++
		if round > 60 {
			p.in.fail("recursive functions of the lexer do not settle")
		}
	}
	p.stack = p.stack[:len(p.stack)-1]
	p.curRec, p.cur = wasRec, wasFn
	e.running = false
	e.iter = p.iter
	if !e.final {
		use(e.low)
		if n := len(p.stack); n > 0 {
			p.stack[n-1].loose = append(append(p.stack[n-1].loose, e), e.loose...)
		}
	}
}

// body interprets a function from an entry state.
func (p *product) body(e *recEntry) {
	for _, o := range p.in.runFunc(e.fn, e.args, nil, e.st.clone(), nil) {
		if o.Kind != "ret" {
			if o.Kind == "exit" {
				p.viol("C01", "returns", shortFn(e.fn), "exit", o.Pos, "the program is ended here")
			}
			continue
		}
		for _, s := range p.sync(o.St, false) {
			var bs []*State
			var rs [][]*Term
			prot := domKeys(e.st)
			protDepth(prot, e.st)
			sb, sr := p.splitBools(s, o.Results)
			for j, b := range sb {
				ds, dr := []*State{b}, [][]*Term{sr[j]}
				if !p.ofEntry(b.gh.depth, prot) {
					ds, dr = p.splitDepth(b, sr[j], prot)
				}
				bs = append(bs, ds...)
				rs = append(rs, dr...)
			}
			for j, b := range bs {
				// names of the entry stay
				objs := map[int]bool{}
				for id := range e.st.heap {
					objs[id] = true
				}
				n := p.norm(b, rs[j], scope{ep: "r." + e.fn.Name(), prot: prot, objs: objs, next: e.st.nextObj, base: e.st, cap: deepest})
				core := n.core(len(n.st.gh.adv))
				if !e.add(core, recResult{n.st, n.roots, core}) {
					continue
				}
				p.growth++
				debugf("result of %s %s: %s", e.fn.Name(), e.st.gh.key(), n.key(len(n.st.gh.adv)))
				if len(e.results) > 400 {
					p.in.fail("%s ends in too many ways", e.fn)
				}
			}
		}
	}
}

// spins tells whether recursive functions can call each other in a circle without consuming input.
func (p *product) spins() bool {
	idx := map[string]int{}
	for i, e := range p.order {
		idx[e.key] = i
	}
	n := len(p.order)
	dist := make([]int, n)
	for r := 0; r <= n; r++ {
		ch := false
		for k, adv := range p.calls {
			w := adv*(n+1) - 1
			if dist[idx[k[0]]]+w < dist[idx[k[1]]] {
				dist[idx[k[1]]] = dist[idx[k[0]]] + w
				ch = true
			}
		}
		if !ch {
			return false
		}
	}
	return n > 0
}

var debugOn = os.Getenv("VERIF_DEBUG") != ""

func debugf(format string, args ...interface{}) {
	if debugOn {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600]
		}
		fmt.Fprintln(os.Stderr, s)
	}
}

// covers tells whether all that d1 allows is allowed by d2. If not, join is their union, in case it allows nothing
// that neither of them does.
func covers(d1, d2 map[*Term]runeSet) (covered bool, join map[*Term]runeSet) {
	if len(d1) != len(d2) {
		return false, nil
	}
	var differ *Term
	covered = true
	same := 0
	for s, a := range d1 {
		b, ok := d2[s]
		if !ok {
			return false, nil
		}
		if a == b {
			same++
			continue
		}
		differ = s
		if a.without(b) != (runeSet{}) {
			covered = false
		}
	}
	if covered {
		return true, nil
	}
	if same != len(d1)-1 {
		return false, nil
	}
	join = map[*Term]runeSet{}
	for s, b := range d2 {
		join[s] = b
	}
	join[differ] = d1[differ].or(d2[differ])
	return false, join
}

// add includes a result, it tells whether that is something new.
func (e *recEntry) add(core string, r recResult) bool {
	// it does not matter whether old results are used by what has been computed, only growth does
	for again := true; again; {
		again = false
		for i, x := range e.results {
			if x.core != core {
				continue
			}
			c, j := covers(r.st.dom, x.st.dom)
			if c {
				return false
			}
			if j != nil {
				n := r.st.clone()
				n.dom = j
				r.st = n
				e.results = append(append([]recResult{}, e.results[:i]...), e.results[i+1:]...)
				again = true
				break
			}
		}
	}
	e.results = append(e.results, r)
	return true
}

// forgetAhead drops what is known of characters that were only looked at, where no value depends on them.
func (p *product) forgetAhead(n *normal, prot map[*Term]bool) {
	g := n.st.gh
	if !p.coarse || g.mode != "start" || g.lastNum || g.cr || g.sp != n.st.stream.Pos || len(g.pend) > 0 {
		return
	}
	used := map[*Term]bool{}
	var scan func(t *Term)
	scan = func(t *Term) {
		if used[t] {
			return
		}
		used[t] = true
		for _, a := range t.Args {
			scan(a)
		}
	}
	for _, r := range n.roots {
		scan(r)
	}
	for _, o := range n.st.heap {
		scan(o.content)
	}
	for _, t := range g.text {
		scan(t)
	}
	s := n.st.stream
	last := s.Pos - 1
	for k, v := range s.Kinds {
		if k > last && v == "rune" && used[s.elem(k)] {
			last = k
		}
	}
	for k := range s.Kinds {
		if k <= last {
			continue
		}
		if e := s.Elems[k]; e != nil && !prot[e] {
			delete(n.st.dom, e)
		}
		delete(s.Kinds, k)
		delete(s.Elems, k)
	}
}

// decideDepth compares a symbol for a nesting depth with a constant.
func (p *product) decideDepth(c *Term) (val, ok bool) {
	if c.Op != OpBin || len(c.Args) != 2 || c.Name != "<" && c.Name != "==" || len(p.depths) == 0 {
		return false, false
	}
	least := func(t *Term) (int64, bool) {
		k := int64(0)
		if t.Op == OpBin && t.Name == "+" {
			v, ok := t.Args[1].intVal()
			if !ok {
				return 0, false
			}
			t, k = t.Args[0], v
		}
		m, ok := p.depths[t]
		return m + k, ok
	}
	a, b := c.Args[0], c.Args[1]
	av, ac := a.intVal()
	bv, bc := b.intVal()
	am, ad := least(a)
	bm, bd := least(b)
	switch {
	case c.Name == "<" && ac && bd && av < bm:
		return true, true
	case c.Name == "<" && ad && bc && am >= bv:
		return false, true
	case c.Name == "==" && ad && bc && am > bv, c.Name == "==" && ac && bd && bm > av:
		return false, true
	}
	return false, false
}

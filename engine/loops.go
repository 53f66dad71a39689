package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// natLoop is a natural loop.
type natLoop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*natLoop {
	res := map[*ssa.BasicBlock]*natLoop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := res[s]
				if l == nil {
					l = &natLoop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					res[s] = l
				}
				var walk func(x *ssa.BasicBlock)
				walk = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						walk(p)
					}
				}
				walk(b)
			}
		}
	}
	return res
}

// irreducible tells whether the flow graph has a cycle that is no natural loop.
func irreducible(fn *ssa.Function) bool {
	color := map[*ssa.BasicBlock]int{}
	bad := false
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		color[b] = 1
		for _, s := range b.Succs {
			if color[s] == 1 && !s.Dominates(b) {
				bad = true
			}
			if color[s] == 0 {
				dfs(s)
			}
		}
		color[b] = 2
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	return bad
}

func constPhi(p *ssa.Phi) bool {
	b, ok := p.Type().Underlying().(*types.Basic)
	if !ok {
		return false
	}
	if b.Info()&types.IsBoolean != 0 {
		return true
	}
	if b.Info()&types.IsInteger == 0 && b.Info()&types.IsString == 0 {
		return false
	}
	seen := map[ssa.Value]bool{}
	var chk func(v ssa.Value) bool
	chk = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			return true
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !chk(e) {
					return false
				}
			}
			return true
		}
		return false
	}
	return chk(p)
}

// unchanged: the variable keeps the value it has when the loop begins.
func unchanged(p *ssa.Phi) bool {
	seen := map[*ssa.Phi]bool{p: true}
	var chk func(v ssa.Value) bool
	chk = func(v ssa.Value) bool {
		x, ok := v.(*ssa.Phi)
		if !ok {
			return false
		}
		if seen[x] {
			return true
		}
		seen[x] = true
		for _, e := range x.Edges {
			if !chk(e) {
				return false
			}
		}
		return true
	}
	for i, e := range p.Edges {
		if p.Block().Dominates(p.Block().Preds[i]) && !chk(e) {
			return false
		}
	}
	return true
}

// counterPhi: the value only rises and is only compared with constants, so that from one above the greatest of them on
// it makes no difference how great it is.
func counterPhi(p *ssa.Phi) (top int64, ok bool) {
	if !risingPhi(p) {
		return 0, false
	}
	web := map[ssa.Value]bool{}
	counts := false
	var chk func(v ssa.Value) bool
	chk = func(v ssa.Value) bool {
		if web[v] {
			return true
		}
		web[v] = true
		if x, ok := v.(*ssa.Phi); ok {
			for _, e := range x.Edges {
				c, isC := e.(*ssa.Const)
				if isC {
					if n, exact := constant.Int64Val(constant.ToInt(c.Value)); exact && n >= 0 && n <= 8 {
						top = max(top, n+1)
						continue
					}
					return false
				}
				if !chk(e) {
					return false
				}
			}
		}
		if x, ok := v.(*ssa.BinOp); ok {
			c, isC := x.Y.(*ssa.Const)
			if x.Op != token.ADD || !isC || c.Int64() < 0 || !chk(x.X) {
				return false
			}
		}
		if v.Referrers() == nil {
			return false
		}
		for _, i := range *v.Referrers() {
			switch i := i.(type) {
			case *ssa.DebugRef:
			case *ssa.Phi:
				if !chk(i) {
					return false
				}
			case *ssa.BinOp:
				c, isC := i.Y.(*ssa.Const)
				if i.X != v {
					c, isC = i.X.(*ssa.Const)
				}
				if !isC || c.Value == nil {
					return false
				}
				switch i.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
					n := c.Int64()
					if n < -8 || n > 8 {
						return false
					}
					top = max(top, n+1)
				case token.ADD:
					counts = true
					if !chk(i) {
						return false
					}
				default:
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	if !chk(p) || !counts {
		return 0, false
	}
	return top, true
}

func phiName(p *ssa.Phi) string {
	n := p.Comment
	if n == "" {
		n = p.Name()
	}
	return n
}

// constTrip: loop bound and counter are constants, so that iterations can be followed one by one.
func (in *Interp) constTrip(fr *Frame, st *State, header *ssa.BasicBlock, vals map[*ssa.Phi]*Term) bool {
	iff, ok := header.Instrs[len(header.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	usesPhi := false
	var ev func(v ssa.Value) (int64, bool)
	ev = func(v ssa.Value) (int64, bool) {
		switch x := v.(type) {
		case *ssa.Const:
			t := in.val(fr, st, x)
			return t.intVal()
		case *ssa.Phi:
			if t, ok := vals[x]; ok {
				usesPhi = true
				return t.intVal()
			}
		case *ssa.BinOp:
			if x.Block() == header {
				a, ok1 := ev(x.X)
				b, ok2 := ev(x.Y)
				if ok1 && ok2 {
					return tBin(x.Op.String(), tInt(a), tInt(b)).intVal()
				}
				return 0, false
			}
		}
		if t, ok := fr.env[v]; ok {
			return t.intVal()
		}
		return 0, false
	}
	if b, ok := cmp.X.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	_, ok1 := ev(cmp.X)
	_, ok2 := ev(cmp.Y)
	return ok1 && ok2 && usesPhi && (in.prod == nil || in.counts(cmp, header))
}

// counts tells whether the loop counts its rounds: what is compared changes by a constant in every one.
func (in *Interp) counts(cmp *ssa.BinOp, header *ssa.BasicBlock) bool {
	var steps func(v ssa.Value) bool
	steps = func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.BinOp:
			if x.Block() == header {
				return steps(x.X) && steps(x.Y)
			}
		case *ssa.Phi:
			if x.Block() != header {
				return true
			}
			for i, e := range x.Edges {
				if !header.Dominates(header.Preds[i]) {
					continue
				}
				b, ok := e.(*ssa.BinOp)
				if !ok || b.X != x && b.Y != x {
					return false
				}
				_, c1 := b.X.(*ssa.Const)
				_, c2 := b.Y.(*ssa.Const)
				if !c1 && !c2 {
					return false
				}
			}
		}
		return true
	}
	return steps(cmp)
}

type memKey struct {
	id    int
	field string
}

func (in *Interp) loop(fr *Frame, st *State, from, header *ssa.BasicBlock, nl *natLoop) []Outcome {
	init := in.phiValues(fr, st, from, header)
	if fr.unroll[header] < 40 && in.constTrip(fr, st, header, init) {
		fr.unroll[header]++
		for p, v := range init {
			fr.env[p] = v
		}
		return in.exec(fr, st, header, 0)
	}
	if in.prod != nil {
		return in.prod.loop(in, fr, st, from, header, nl, init)
	}
	in.depth++
	defer func() { in.depth-- }()

	name := st.fresh("loop:" + fr.fn.Name())
	var phis, same []*ssa.Phi
	for _, i := range header.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			if unchanged(p) {
				same = append(same, p)
			} else {
				phis = append(phis, p)
			}
		}
	}
	widened := map[*ssa.Phi]bool{}
	limits := map[*ssa.Phi]int64{}
	for _, p := range phis {
		if n, ok := counterPhi(p); ok {
			limits[p] = n
		}
	}
	isConst := func(p *ssa.Phi) bool {
		_, counter := limits[p]
		return !widened[p] && (counter || constPhi(p)) && init[p].isConst()
	}
	symName := map[*ssa.Phi]*Term{}
	used := map[string]int{}
	for _, p := range phis {
		n := phiName(p)
		used[n]++
		if used[n] > 1 {
			n = fmt.Sprintf("%s_%d", n, used[n])
		}
		symName[p] = tSymT("φ"+name+"."+n, p.Type())
	}
	havoc := map[memKey]bool{}
	havocStream := false

	var info *LoopInfo
	var exits []Outcome
	var others []Outcome
	var entry *State
	for round := 0; ; round++ {
		if round > 12 {
			in.fail("loop in %s does not stabilise", fr.fn)
		}
		info = &LoopInfo{Name: name, Fn: fr.fn, Header: header, Phis: map[string]*Term{}}
		exits, others = nil, nil
		entry = st.clone()
		memSym := map[memKey]*Term{}
		for k := range havoc {
			o := entry.heap[k.id]
			if o == nil {
				continue
			}
			c := *o
			if k.field == "" {
				s := tSymT(fmt.Sprintf("φ%s.%s", name, entry.objName(k.id)), o.typ)
				memSym[k] = s
				info.Phis[s.Name] = o.content
				if strings.HasPrefix(types.TypeString(o.typ, nil), "bytes.Buffer") || strings.HasPrefix(types.TypeString(o.typ, nil), "strings.Builder") {
					delete(info.Phis, s.Name)
					s = tSymT(s.Name+".text", types.Typ[types.String])
					memSym[k] = s
					info.Phis[s.Name] = memValue(o, k)
					if isZeroTerm(info.Phis[s.Name]) {
						info.Phis[s.Name] = tStr("")
					}
					c.content = mk(Term{Op: OpCall, Name: "buffer", Args: []*Term{s}, Type: o.typ})
				} else {
					c.content = s
				}
			} else {
				var ft types.Type
				so := structOf(o.typ)
				for i := 0; i < so.NumFields(); i++ {
					if so.Field(i).Name() == k.field {
						ft = so.Field(i).Type()
					}
				}
				s := tSymT(fmt.Sprintf("φ%s.%s.%s", name, entry.objName(k.id), k.field), ft)
				memSym[k] = s
				info.Phis[s.Name] = tField(o.content, k.field, ft)
				c.content = setField(o.content, o.typ, k.field, s)
			}
			entry.heap[k.id] = &c
		}
		if havocStream {
			in.newEpoch(entry, name)
		}
		entry.events = append(entry.events, Event{Kind: "loop", Name: name, Loop: info, Pos: header.Instrs[0].Pos(), Fn: fr.fn, NLit: len(entry.lits)})
		for _, p := range phis {
			if !isConst(p) {
				info.Phis[symName[p].Name] = init[p]
				// counters never fall below where they start
				if lo, ok := init[p].intVal(); ok && risingPhi(p) {
					entry.suppose(tNot(tBin("<", symName[p], tInt(lo))))
				}
			}
		}
		nEv, nLit := len(entry.events), len(entry.lits)

		type vec struct {
			vals map[*ssa.Phi]*Term
			key  string
		}
		mkVec := func(m map[*ssa.Phi]*Term) vec {
			v := vec{vals: map[*ssa.Phi]*Term{}}
			var ks []string
			for _, p := range phis {
				if isConst(p) {
					v.vals[p] = m[p]
					ks = append(ks, phiName(p)+"="+m[p].String())
				}
			}
			v.key = strings.Join(ks, ",")
			return v
		}
		work := []vec{mkVec(init)}
		seen := map[string]bool{work[0].key: true}
		restart := false
		type backState struct {
			st   *State
			vals map[*ssa.Phi]*Term
			lp   *LoopPath
		}
		var backs []backState
		for len(work) > 0 && !restart {
			w := work[0]
			work = work[1:]
			ls := LoopState{Key: w.key, Vals: map[string]*Term{}}
			f := fr.clone()
			f.loops = append(append([]*loopAct{}, fr.loops...), &loopAct{header, nl.blocks})
			f.flag = nil
			for _, p := range same {
				f.env[p] = init[p]
			}
			for _, p := range phis {
				if isConst(p) {
					f.env[p] = w.vals[p]
					ls.Vals[phiName(p)] = w.vals[p]
				} else {
					f.env[p] = symName[p]
				}
			}
			info.States = append(info.States, ls)
			s := entry.clone()
			for _, o := range in.exec(f, s, header, 0) {
				switch o.Kind {
				case "back":
					vals := in.phiValues(o.fr, o.St, o.from, header)
					// boolean state that is not constant on this path is split
					type sv struct {
						st   *State
						vals map[*ssa.Phi]*Term
					}
					list := []sv{{o.St, vals}}
					for _, p := range phis {
						if !isConst(p) {
							continue
						}
						var nl []sv
						for _, e := range list {
							v := e.st.norm(e.vals[p])
							if v.isConst() {
								if top, ok := limits[p]; ok {
									if n, ok := v.intVal(); ok && n > top {
										v = tConst(constant.MakeInt64(top), p.Type())
									}
								}
								e.vals[p] = v
								nl = append(nl, e)
								continue
							}
							if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
								widened[p] = true
								restart = true
								nl = append(nl, e)
								continue
							}
							t, ff := in.cases(e.st, v)
							cp := func(b bool) map[*ssa.Phi]*Term {
								m := map[*ssa.Phi]*Term{}
								for k, x := range e.vals {
									m[k] = x
								}
								m[p] = tBool(b)
								return m
							}
							for _, x := range t {
								nl = append(nl, sv{x, cp(true)})
							}
							for _, x := range ff {
								nl = append(nl, sv{x, cp(false)})
							}
						}
						list = nl
					}
					if restart {
						break
					}
					for _, e := range list {
						nv := mkVec(e.vals)
						if !seen[nv.key] {
							if len(seen) > 24 {
								for _, p := range phis {
									if isConst(p) {
										widened[p] = true
									}
								}
								restart = true
								break
							}
							seen[nv.key] = true
							work = append(work, nv)
						}
						lp := &LoopPath{From: w.key, To: nv.key, Lits: append([]*Term{}, e.st.lits[min(nLit, len(e.st.lits)):]...), Events: append([]Event{}, e.st.events[min(nEv, len(e.st.events)):]...), St: e.st, Phis: map[string]*Term{}}
						for _, p := range phis {
							if !isConst(p) {
								lp.Phis[symName[p].Name] = e.st.snapshot(e.vals[p])
							}
						}
						for k, s := range memSym {
							if o := e.st.heap[k.id]; o != nil {
								lp.Phis[s.Name] = e.st.snapshot(memValue(o, k))
							}
						}
						backs = append(backs, backState{e.st, e.vals, lp})
						info.Back = append(info.Back, *lp)
					}
				case "leave":
					lp := LoopPath{From: w.key, Lits: append([]*Term{}, o.St.lits[min(nLit, len(o.St.lits)):]...), Events: append([]Event{}, o.St.events[min(nEv, len(o.St.events)):]...), St: o.St}
					lp.Normal = o.from == header && o.fr.flag != header
					info.Exits = append(info.Exits, lp)
					exits = append(exits, o)
				default:
					others = append(others, o)
				}
			}
		}
		if restart {
			continue
		}
		// what did the iterations write
		grown := false
		for _, b := range backs {
			for id, o := range b.st.heap {
				e := entry.heap[id]
				if e == nil {
					if o.base == nil || !stableOutside(o.base, symName) {
						continue
					}
					// memory first touched inside of the loop
					if o.content != derefDefault(o.base, o.typ) {
						if _, _, ok := st.resolve(o.base); ok {
							grown = true
						}
					}
					continue
				}
				if e.content == o.content {
					continue
				}
				keys := diffKeys(e, o, id)
				for _, k := range keys {
					if !havoc[k] {
						havoc[k] = true
						grown = true
					}
				}
			}
			if b.st.stream != entry.stream && b.st.stream.Touched && !havocStream {
				havocStream = true
				grown = true
			}
		}
		for _, o := range exits {
			if o.St.stream != entry.stream && o.St.stream.Touched && !havocStream && len(backs) > 0 {
				havocStream = true
				grown = true
			}
		}
		if grown {
			continue
		}
		in.finishLoop(info, phis, symName, memSym, init, nLit)
		// memory that is written in every iteration before it is read does not carry anything over
		live := havocStream
		for _, sym := range memSym {
			if symLive(info, sym) {
				live = true
			}
		}
		in.pureLoop(info, phis, symName, isConst, live)
		break
	}

	// continue after the loop
	outs := others
	for i, o := range exits {
		f := o.fr.clone()
		f.loops = fr.loops
		lp := &info.Exits[i]
		if in.noFold && !lp.Normal {
			o.St.event(Event{Kind: "early", Name: info.Name, Pos: header.Instrs[len(header.Instrs)-1].Pos(), Fn: fr.fn})
		}
		m := in.exitSubst(info, lp)
		if info.Search != nil && !lp.Normal && info.Latch == "" {
			for k, v := range in.searchSubst(info) {
				m[k] = v
			}
		}
		if info.Fix != nil {
			m[info.FixSym] = info.fixed()
		}
		if len(m) > 0 {
			o.St.substAll(m)
			memo := map[*Term]*Term{}
			for k, v := range f.env {
				f.env[k] = subst(v, m, memo)
			}
		}
		if info.Over != nil && (lp.Normal || info.Latch != "") {
			idx := info.Elem.Args[1]
			var phi *Term
			for _, s := range idx.dyn.syms {
				if strings.HasPrefix(s.Name, "φ"+name+".") {
					phi = s
				}
			}
			if phi != nil {
				o.St.dropLits(func(l *Term) bool { return contains(l, phi) })
			}
		}
		if info.Search != nil {
			ex := info.Search
			if info.Latch != "" {
				if lp.From != info.Latch {
					ex = tNot(ex)
				}
			} else if lp.Normal {
				ex = tNot(ex)
			} else {
				fi := in.searchIndex(info)
				el := tIndex(info.Over, fi)
				o.St.imply(func(l *Term) bool {
					return l.Op == OpBin && l.Name == "<" && l.Args[0] == fi || l.Op == OpNot && l.Args[0].Op == OpBin && l.Args[0].Name == "<" && l.Args[0].Args[0] == fi
				})
				if len(ex.Args) == 2 && len(ex.Args[1].Args) == 1 {
					// the negation of the only condition to go on
					hit := tNot(subst(ex.Args[1].Args[0], map[*Term]*Term{info.Bound: el}, map[*Term]*Term{}))
					o.St.imply(func(l *Term) bool { return l == hit })
				}
			}
			if !o.St.assume(ex) {
				continue
			}
		}
		if info.Fix != nil {
			o.St.imply(func(l *Term) bool {
				if l.Op != OpNot {
					return false
				}
				for _, c := range info.Fix.Args[1:] {
					if g := c.Args[0].Args; len(g) == 1 && subst(g[0], map[*Term]*Term{info.Bound: info.fixed()}, map[*Term]*Term{}) == l.Args[0] {
						return true
					}
				}
				return false
			})
		}
		if info.Search != nil || info.Fix != nil {
			o.St.dropLoopEvent(info)
		}
		outs = append(outs, in.enter(f, o.St, o.from, o.to)...)
	}
	return outs
}

// fixed is what the loop variable is in the end.
func (l *LoopInfo) fixed() *Term {
	if l.FixBare != nil {
		return l.FixBare
	}
	return l.Fix
}

// symLive: does the value a loop symbol has at the start of an iteration matter.
func symLive(info *LoopInfo, sym *Term) bool {
	check := func(lp *LoopPath) bool {
		for _, l := range lp.Lits {
			if contains(l, sym) {
				return true
			}
		}
		for _, e := range lp.Events {
			for _, a := range e.Args {
				if contains(a, sym) {
					return true
				}
			}
			if e.Loop != nil {
				return true
			}
		}
		for _, v := range lp.Phis {
			if contains(v, sym) {
				return true
			}
		}
		return false
	}
	for i := range info.Back {
		if check(&info.Back[i]) {
			return true
		}
	}
	for i := range info.Exits {
		if check(&info.Exits[i]) {
			return true
		}
	}
	return false
}

func memValue(o *heapObj, k memKey) *Term {
	if k.field == "" {
		if o.content.Op == OpCall && o.content.Name == "buffer" {
			return o.content.Args[0]
		}
		return o.content
	}
	var ft types.Type
	if so := structOf(o.typ); so != nil {
		for i := 0; i < so.NumFields(); i++ {
			if so.Field(i).Name() == k.field {
				ft = so.Field(i).Type()
			}
		}
	}
	return tField(o.content, k.field, ft)
}

func stableOutside(t *Term, syms map[*ssa.Phi]*Term) bool {
	for _, s := range syms {
		if contains(t, s) {
			return false
		}
	}
	return true
}

func diffKeys(a, b *heapObj, id int) []memKey {
	ts := types.TypeString(a.typ, nil)
	so, ok := a.typ.Underlying().(*types.Struct)
	if !ok || ts == "bytes.Buffer" || ts == "strings.Builder" {
		return []memKey{{id, ""}}
	}
	var ks []memKey
	for i := 0; i < so.NumFields(); i++ {
		f := so.Field(i)
		if tField(a.content, f.Name(), f.Type()) != tField(b.content, f.Name(), f.Type()) {
			ks = append(ks, memKey{id, f.Name()})
		}
	}
	return ks
}

// risingPhi: every value around the loop is the phi plus a positive constant, or the phi itself.
func risingPhi(p *ssa.Phi) bool {
	b, ok := p.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	for i, e := range p.Edges {
		if !p.Block().Dominates(p.Block().Preds[i]) {
			continue
		}
		if !risesFrom(e, p, map[ssa.Value]bool{}) {
			return false
		}
	}
	return true
}

func risesFrom(v ssa.Value, p *ssa.Phi, seen map[ssa.Value]bool) bool {
	if v == p {
		return true
	}
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op.String() == "+" {
			if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil && c.Int64() >= 0 {
				return risesFrom(x.X, p, seen)
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !risesFrom(e, p, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// finishLoop recognises traversals of a list and what they collect.
func (in *Interp) finishLoop(info *LoopInfo, phis []*ssa.Phi, symName map[*ssa.Phi]*Term, memSym map[memKey]*Term, init map[*ssa.Phi]*Term, nLit int) {
	if len(info.States) != 1 {
		// flags kept across iterations: still a traversal if the counter says so
	}
	for _, p := range phis {
		sym := symName[p]
		c0, ok := init[p].intVal()
		if !ok || len(info.Back) == 0 {
			continue
		}
		var over, idx *Term
		good := true
		for _, b := range info.Back {
			if b.Phis[sym.Name] != tBin("+", sym, tInt(1)) {
				good = false
				break
			}
			// literal idx < len(L)
			var o, x *Term
			for _, l := range b.Lits {
				if l.Op == OpBin && l.Name == "<" && l.Args[1].Op == OpLen {
					if l.Args[0] == tBin("+", sym, tInt(-c0)) {
						o, x = l.Args[1].Args[0], l.Args[0]
					}
				}
			}
			if o == nil || (over != nil && o != over) || anyTerm(o, func(t *Term) bool { return t.Op == OpSym && strings.HasPrefix(t.Name, "φ"+info.Name+".") }) {
				good = false
				break
			}
			over, idx = o, x
		}
		if good && over != nil {
			info.Over = over
			info.Elem = tIndex(over, idx)
		}
	}
}

// exitSubst tells what loop symbols are once the loop is left.
func (in *Interp) exitSubst(info *LoopInfo, lp *LoopPath) map[*Term]*Term {
	m := map[*Term]*Term{}
	var names []string
	for n := range info.Phis {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		ini := info.Phis[n]
		sym := symByName[n]
		if sym == nil {
			sym = tSym(n)
		}
		// unchanged by every iteration
		same := true
		for _, b := range info.Back {
			if v, ok := b.Phis[n]; !ok || v != sym {
				same = false
			}
		}
		if same {
			m[sym] = ini
			continue
		}
		if info.Over != nil {
			// a traversal that was left by the test of its counter has come to the end
			idx := info.Elem.Args[1]
			off := int64(0)
			if idx != sym && idx.Op == OpBin && idx.Name == "+" && idx.Args[0] == sym {
				off, _ = idx.Args[1].intVal()
			}
			if idx == sym || off != 0 {
				end := tNot(tBin("<", idx, tLen(info.Over)))
				for _, l := range lp.Lits {
					if l == end {
						m[sym] = tBin("+", tLen(info.Over), tInt(-off))
					}
				}
				if m[sym] != nil {
					continue
				}
			}
		}
		if info.Over == nil || !lp.Normal || in.noFold {
			continue
		}
		if fm := in.fold(info, sym, ini); fm != nil {
			m[sym] = fm
		}
	}
	return m
}

var symByName = map[string]*Term{}

// fold describes a list that every iteration extends by what depends on the element only.
func (in *Interp) fold(info *LoopInfo, sym, ini *Term) *Term {
	bound := mk(Term{Op: OpBound, Name: fmt.Sprintf("elem%d", in.depth), Type: info.Elem.Type})
	m := map[*Term]*Term{info.Elem: bound}
	var cs []*Term
	idx := info.Elem.Args[1]
	for _, b := range info.Back {
		v, ok := b.Phis[sym.Name]
		if !ok {
			return nil
		}
		v = normList(v)
		if v.Op != OpList || len(v.Args) == 0 || v.Args[0].Op != OpSpread || v.Args[0].Args[0] != sym {
			return nil
		}
		rest := tList(v.Args[1:]...)
		rest = subst(rest, m, map[*Term]*Term{})
		var guards []*Term
		for _, l := range b.Lits {
			if l.Op == OpBin && l.Name == "<" && l.Args[0] == idx {
				continue
			}
			guards = append(guards, subst(l, m, map[*Term]*Term{}))
		}
		bad := func(t *Term) bool {
			return anyTerm(t, func(x *Term) bool { return x.Op == OpSym && strings.HasPrefix(x.Name, "φ"+info.Name+".") })
		}
		if bad(rest) {
			return nil
		}
		var gs []*Term
		for _, g := range guards {
			if !bad(g) {
				gs = append(gs, g)
			}
		}
		sort.Slice(gs, func(i, j int) bool { return gs[i].id < gs[j].id })
		cs = append(cs, mk(Term{Op: OpCase, Args: []*Term{mk(Term{Op: OpAnd, Args: gs}), rest}}))
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	all := true
	for _, c := range cs {
		if len(segs(c.Args[1])) > 0 {
			all = false
		}
	}
	if all {
		return ini
	}
	// copying a list element by element gives the list
	if len(cs) == 1 && len(cs[0].Args[0].Args) == 0 && cs[0].Args[1] == tList(tElem(bound)) {
		return tAppend(ini, tList(tSpread(info.Over)))
	}
	fm := mk(Term{Op: OpFlatMap, Args: append([]*Term{info.Over}, cs...)})
	return tList(append(append([]*Term{}, segs(ini)...), tSpread(fm))...)
}

func normList(v *Term) *Term {
	if v.Op == OpList {
		return v
	}
	return mk(Term{Op: OpList, Args: []*Term{tSpread(v)}})
}

// substAll replaces terms in the whole state.
func (s *State) substAll(m map[*Term]*Term) {
	memo := map[*Term]*Term{}
	for id, o := range s.heap {
		n := subst(o.content, m, memo)
		if n != o.content {
			c := *o
			c.content = n
			s.heap[id] = &c
		}
	}
	lits := s.lits
	s.lits = nil
	s.litSet = map[*Term]bool{}
	for _, l := range lits {
		n := subst(l, m, memo)
		if v, ok := n.boolVal(); ok && v {
			continue
		}
		if !s.litSet[n] {
			s.lits = append(s.lits, n)
			s.litSet[n] = true
		}
	}
	imp := s.implied
	s.implied = nil
	for _, l := range imp {
		n := subst(l, m, memo)
		if _, ok := n.boolVal(); !ok && !s.litSet[n] {
			s.litSet[n] = true
			s.implied = append(s.implied, n)
		}
	}
	for i, e := range s.events {
		if e.Loop != nil {
			continue
		}
		args := make([]*Term, len(e.Args))
		for j, a := range e.Args {
			args[j] = subst(a, m, memo)
		}
		s.events[i].Args = args
		if e.Res != nil {
			s.events[i].Res = subst(e.Res, m, memo)
		}
	}
	eq := map[*Term]*Term{}
	for k, v := range s.eq {
		eq[subst(k, m, memo)] = v
	}
	s.eq = eq
}

func (s *State) dropLoopEvent(info *LoopInfo) {
	for i, e := range s.events {
		if e.Loop == info {
			s.events = append(append([]Event{}, s.events[:i]...), s.events[i+1:]...)
			return
		}
	}
}

// pureLoop recognises loops that do nothing but look for an element, or follow a chain of values.
func (in *Interp) pureLoop(info *LoopInfo, phis []*ssa.Phi, symName map[*ssa.Phi]*Term, isConst func(*ssa.Phi) bool, writes bool) {
	if writes || len(info.Back) == 0 || len(info.States) > 2 {
		return
	}
	if len(info.States) == 2 {
		// a flag that is set once and then stays
		first, latch := info.States[0].Key, info.States[1].Key
		if info.Over == nil {
			return
		}
		for _, b := range info.Back {
			if b.From == latch && b.To != latch {
				return
			}
		}
		for _, e := range info.Exits {
			if e.From == first && !e.Normal {
				return
			}
		}
		info.Latch = latch
		defer func() {
			if info.Search == nil {
				info.Latch = ""
			}
		}()
	}
	for _, b := range info.Back {
		for _, e := range b.Events {
			if e.Kind != "panicsite" {
				return
			}
		}
	}
	var changing []*Term
	for _, p := range phis {
		if isConst(p) {
			continue
		}
		sym := symName[p]
		for _, b := range info.Back {
			if b.Phis[sym.Name] != sym {
				changing = append(changing, sym)
				break
			}
		}
	}
	if len(changing) != 1 {
		return
	}
	if !in.pr.pureLoops {
		return
	}
	if info.Over != nil {
		off := int64(0)
		idx := info.Elem.Args[1]
		if idx.Op == OpBin {
			off, _ = idx.Args[1].intVal()
		}
		bound := mk(Term{Op: OpBound, Name: "it", Type: info.Elem.Type})
		info.Bound = bound
		m := map[*Term]*Term{info.Elem: bound}
		memo := map[*Term]*Term{}
		var gs []*Term
		for _, b := range info.Back {
			if info.Latch != "" && b.To == info.Latch {
				continue
			}
			var ls []*Term
			for _, l := range b.Lits {
				if l.Op == OpBin && l.Name == "<" && l.Args[0] == idx {
					continue
				}
				n := subst(l, m, memo)
				if contains(n, changing[0]) {
					if isBoundLit(n, changing[0]) {
						continue
					}
					return
				}
				ls = append(ls, n)
			}
			gs = append(gs, tAnd(ls))
		}
		gs = mergeGuards(gs)
		info.Search = mk(Term{Op: OpCall, Name: "exists", Args: append([]*Term{info.Over}, gs...), Type: types.Typ[types.Bool]})
		info.SearchSym, info.SearchOff = changing[0], off
		return
	}
	bound := mk(Term{Op: OpBound, Name: "x", Type: changing[0].Type})
	m := map[*Term]*Term{changing[0]: bound}
	memo := map[*Term]*Term{}
	var cs []*Term
	for _, b := range info.Back {
		var ls []*Term
		for _, l := range b.Lits {
			if isBoundLit(l, changing[0]) {
				continue
			}
			ls = append(ls, subst(l, m, memo))
		}
		cs = append(cs, mk(Term{Op: OpCase, Args: []*Term{tAnd(ls), subst(b.Phis[changing[0].Name], m, memo)}}))
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	info.FixSym = changing[0]
	info.Bound = bound
	info.Fix = mk(Term{Op: OpCall, Name: "fix", Args: append([]*Term{info.Phis[changing[0].Name]}, cs...), Type: changing[0].Type})
	if in.bareSym != "" && info.Fix.String() == "bare("+in.bareSym+")" {
		info.FixBare = info.Fix.Args[0]
	}
}

// isBoundLit: what is assumed of rising counters.
func isBoundLit(l, sym *Term) bool {
	return l.Op == OpNot && l.Args[0].Op == OpBin && l.Args[0].Name == "<" && l.Args[0].Args[0] == sym && l.Args[0].Args[1].isConst()
}

func (in *Interp) searchIndex(info *LoopInfo) *Term {
	return mk(Term{Op: OpCall, Name: "first", Args: info.Search.Args, Type: types.Typ[types.Int]})
}

func (in *Interp) searchSubst(info *LoopInfo) map[*Term]*Term {
	return map[*Term]*Term{info.SearchSym: tBin("+", in.searchIndex(info), tInt(-info.SearchOff))}
}

// tAnd is a conjunction in canonical form: what follows from the dynamic type of a value is left out.
func tAnd(ls []*Term) *Term {
	pos := map[*Term]bool{}
	for _, l := range ls {
		if l.Op == OpIsType && !isIface(l.Typ) {
			pos[l.Args[0]] = true
		}
	}
	var out []*Term
	seen := map[*Term]bool{}
	for _, l := range ls {
		if impliedByType(l, pos) || seen[l] {
			continue
		}
		seen[l] = true
		out = append(out, l)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk(Term{Op: OpAnd, Args: out})
}

func impliedByType(l *Term, pos map[*Term]bool) bool {
	if l.Op != OpNot {
		return false
	}
	l = l.Args[0]
	if l.Op == OpIsType && pos[l.Args[0]] {
		return true
	}
	return l.Op == OpBin && l.Name == "==" && l.Args[1].Op == OpNil && pos[l.Args[0]]
}

// mergeGuards joins conjunctions that differ in the sign of one literal.
func mergeGuards(gs []*Term) []*Term {
	for again := true; again; {
		again = false
	outer:
		for i := range gs {
			for j := range gs {
				if i == j {
					continue
				}
				if gs[i] == gs[j] {
					gs = append(append([]*Term{}, gs[:j]...), gs[j+1:]...)
					again = true
					break outer
				}
				a, b := gs[i].Args, gs[j].Args
				in := func(x *Term, l []*Term) bool {
					for _, y := range l {
						if x == y {
							return true
						}
					}
					return false
				}
				var oa, ob []*Term
				for _, x := range a {
					if !in(x, b) {
						oa = append(oa, x)
					}
				}
				for _, x := range b {
					if !in(x, a) {
						ob = append(ob, x)
					}
				}
				if len(oa) == 0 || len(oa) == 1 && len(ob) == 1 && oa[0] == tNot(ob[0]) {
					var ls []*Term
					for _, x := range a {
						if len(oa) == 0 || x != oa[0] {
							ls = append(ls, x)
						}
					}
					n := []*Term{tAnd(ls)}
					for k := range gs {
						if k != i && k != j {
							n = append(n, gs[k])
						}
					}
					gs = n
					again = true
					break outer
				}
			}
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].id < gs[j].id })
	return gs
}

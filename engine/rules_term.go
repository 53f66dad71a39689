package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"

	"golang.org/x/tools/go/ssa"
)

// descent finds out which values are parts of others.
type descent struct {
	pr   *Program
	memo map[string]int // of results of functions
}

const (
	noPart = iota
	samePart
	strictPart
)

func least(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// from says whether v is root, or a part of it, on every way it can be computed.
func (d *descent) from(v ssa.Value, root ssa.Value, seen map[ssa.Value]bool) int {
	if v == root {
		return samePart
	}
	if seen[v] {
		return strictPart // around a loop that is looked at on its other ways
	}
	up := func(x ssa.Value, strict bool) int {
		k := d.from(x, root, seen)
		if k == samePart && strict {
			return strictPart
		}
		return k
	}
	switch x := v.(type) {
	case *ssa.Phi:
		seen[v] = true
		defer delete(seen, v)
		k := strictPart
		for _, e := range x.Edges {
			k = least(k, d.from(e, root, seen))
		}
		return k
	case *ssa.TypeAssert:
		return up(x.X, false)
	case *ssa.ChangeInterface:
		return up(x.X, false)
	case *ssa.ChangeType:
		return up(x.X, false)
	case *ssa.MakeInterface:
		return up(x.X, false)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.TypeAssert:
			if x.Index == 0 {
				return up(t.X, false)
			}
		case *ssa.Call:
			return d.call(t, x.Index, root, seen)
		}
		return noPart
	case *ssa.Field:
		return up(x.X, true)
	case *ssa.FieldAddr:
		if al, ok := x.X.(*ssa.Alloc); ok {
			// a variable: what the field was made of, or the field of what the variable was set to
			k, some := strictPart, false
			for _, ref := range *al.Referrers() {
				switch i := ref.(type) {
				case *ssa.Store:
					if i.Addr != ssa.Value(al) {
						return noPart
					}
					some = true
					if w := d.from(i.Val, root, seen); w == noPart {
						return noPart
					}
				case *ssa.FieldAddr:
					for _, r2 := range *i.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(i) && i.Field == x.Field {
							some = true
							k = least(k, d.from(st.Val, root, seen))
						}
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return noPart
				}
			}
			if !some {
				return noPart
			}
			return k
		}
		return up(x.X, true)
	case *ssa.IndexAddr:
		return up(x.X, true)
	case *ssa.Index:
		return up(x.X, true)
	case *ssa.Slice:
		if k, ok := x.Low.(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) > 0 {
			return up(x.X, true) // what is left
		}
		if x.Low == nil && x.High != nil {
			if b, ok := x.High.(*ssa.BinOp); ok && b.Op == token.SUB {
				return up(x.X, true)
			}
		}
		return up(x.X, false)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return up(x.X, false)
		}
		return noPart
	case *ssa.Alloc:
		// a variable: what is stored there
		seen[v] = true
		defer delete(seen, v)
		k, some := strictPart, false
		for _, ref := range *x.Referrers() {
			switch i := ref.(type) {
			case *ssa.Store:
				if i.Addr == v {
					some = true
					k = least(k, d.from(i.Val, root, seen))
				} else {
					return noPart
				}
			case *ssa.UnOp, *ssa.FieldAddr, *ssa.DebugRef, *ssa.IndexAddr, *ssa.Slice:
				// one that is made of others is not one of their parts
				if a, ok := ref.(ssa.Value); ok {
					for _, r2 := range *a.Referrers() {
						if s, ok := r2.(*ssa.Store); ok && s.Addr == a {
							return noPart
						}
					}
				}
			default:
				return noPart
			}
		}
		if !some {
			return noPart
		}
		return k
	case *ssa.Call:
		return d.call(x, 0, root, seen)
	}
	return noPart
}

// call: the result of a function that gives a part of an argument.
func (d *descent) call(c *ssa.Call, idx int, root ssa.Value, seen map[ssa.Value]bool) int {
	f := c.Call.StaticCallee()
	if f == nil || !d.pr.inRepo(f) {
		return noPart
	}
	for i, p := range f.Params {
		key := fmt.Sprintf("%s %d %d", f, idx, i)
		k, ok := d.memo[key]
		if !ok {
			d.memo[key] = noPart
			k = strictPart
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					if idx >= len(ret.Results) {
						k = noPart
						break
					}
					if z, ok := ret.Results[idx].(*ssa.Const); ok && z.Value == nil {
						continue
					}
					k = least(k, d.from(ret.Results[idx], p, map[ssa.Value]bool{}))
				}
			}
			d.memo[key] = k
		}
		if k == noPart {
			continue
		}
		a := d.from(c.Call.Args[i], root, seen)
		switch {
		case a == noPart:
		case k == strictPart || a == strictPart || d.peels(f, idx, p, c):
			return strictPart
		default:
			return samePart
		}
	}
	return noPart
}

// peels: what is given is of a kind that the function does not return.
func (d *descent) peels(f *ssa.Function, idx int, p *ssa.Parameter, c *ssa.Call) bool {
	var arg ssa.Value
	for i, q := range f.Params {
		if q == p {
			arg = c.Call.Args[i]
		}
	}
	is := d.kindsOf(arg, c.Block(), 0)
	if len(is) == 0 {
		return false
	}
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		v := ret.Results[idx]
		if z, ok := v.(*ssa.Const); ok && z.Value == nil || d.from(v, p, map[ssa.Value]bool{}) == strictPart {
			continue
		}
		not := map[string]bool{}
		for _, t := range f.Blocks {
			if i, ok := t.Instrs[len(t.Instrs)-1].(*ssa.If); ok && len(t.Succs[1].Preds) == 1 && t.Succs[1].Dominates(b) {
				if x, kind := kindTest(i.Cond); x == v {
					not[kind] = true
				}
			}
		}
		for _, k := range is {
			if !not[k] {
				return false
			}
		}
	}
	return true
}

// kindTest: the condition is that x is of a type.
func kindTest(c ssa.Value) (x ssa.Value, kind string) {
	if e, ok := c.(*ssa.Extract); ok && e.Index == 1 {
		if t, ok := e.Tuple.(*ssa.TypeAssert); ok {
			return t.X, typeStr(t.AssertedType)
		}
	}
	return nil, ""
}

// kindsOf lists the types one of which x is known to have in a block.
func (d *descent) kindsOf(x ssa.Value, b *ssa.BasicBlock, depth int) (ks []string) {
	if depth > 20 || len(b.Preds) == 0 {
		return nil
	}
	for _, p := range b.Preds {
		if i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] == b && p.Succs[1] != b {
			if y, kind := kindTest(i.Cond); y == x {
				if _, iface := i.Cond.(*ssa.Extract).Tuple.(*ssa.TypeAssert).AssertedType.Underlying().(*types.Interface); !iface {
					ks = append(ks, kind)
					continue
				}
			}
		}
		more := d.kindsOf(x, p, depth+1)
		if len(more) == 0 {
			return nil
		}
		ks = append(ks, more...)
	}
	return ks
}

const bottom = -1 << 20 // of values that have no parts

// deep is by how much the nesting of v is more than that of the roots, at most.
func (d *descent) deep(v ssa.Value, root map[ssa.Value]bool, assume map[ssa.Value]int) (int, bool) {
	if stored(v) {
		return 0, false
	}
	if root[v] {
		return 0, true
	}
	if n, ok := assume[v]; ok {
		return n, true
	}
	max := func(a, b int) int {
		if a > b {
			return a
		}
		return b
	}
	// a value with several sources, that may go through itself
	join := func(sources func() (int, bool)) (int, bool) {
		assume[v] = bottom
		n, ok := sources()
		if ok {
			assume[v] = n
			m, ok2 := sources()
			ok = ok2 && m <= n
		}
		delete(assume, v)
		return n, ok
	}
	up := func(x ssa.Value, by int) (int, bool) {
		n, ok := d.deep(x, root, assume)
		return max(n+by, bottom), ok
	}
	switch x := v.(type) {
	case *ssa.Const:
		return bottom, true
	case *ssa.MakeSlice:
		return bottom, true
	case *ssa.Phi:
		return join(func() (int, bool) {
			n := bottom
			for _, e := range x.Edges {
				m, ok := d.deep(e, root, assume)
				if !ok {
					return 0, false
				}
				n = max(n, m)
			}
			return n, true
		})
	case *ssa.TypeAssert:
		return up(x.X, 0)
	case *ssa.ChangeInterface:
		return up(x.X, 0)
	case *ssa.ChangeType:
		return up(x.X, 0)
	case *ssa.MakeInterface:
		return up(x.X, 0)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.TypeAssert:
			if x.Index == 0 {
				return up(t.X, 0)
			}
		case *ssa.Call:
			return d.deepCall(t, x.Index, root, assume)
		}
	case *ssa.Field:
		return up(x.X, -1)
	case *ssa.Index:
		return up(x.X, -1)
	case *ssa.IndexAddr:
		return up(x.X, -1)
	case *ssa.FieldAddr:
		if al, ok := x.X.(*ssa.Alloc); ok {
			return d.deepVar(al, x.Field, root, assume)
		}
		return up(x.X, -1)
	case *ssa.Slice:
		return up(x.X, 0)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return up(x.X, 0)
		}
	case *ssa.Alloc:
		return join(func() (int, bool) { return d.deepVar(x, -1, root, assume) })
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() != "append" || len(x.Call.Args) != 2 {
				return 0, false
			}
			n, ok1 := up(x.Call.Args[0], 0)
			m, ok2 := up(x.Call.Args[1], 0)
			return max(n, m), ok1 && ok2
		}
		return d.deepCall(x, 0, root, assume)
	}
	return 0, false
}

// stored: something is stored in an element of the slice.
func stored(v ssa.Value) bool {
	if _, ok := v.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	if v.Referrers() == nil {
		return false
	}
	for _, ref := range *v.Referrers() {
		if i, ok := ref.(*ssa.IndexAddr); ok {
			for _, r2 := range *i.Referrers() {
				if _, ok := r2.(*ssa.Store); ok {
					return true
				}
			}
		}
	}
	return false
}

// deepVar looks at what is stored in a variable, or one of its fields.
func (d *descent) deepVar(al *ssa.Alloc, field int, root map[ssa.Value]bool, assume map[ssa.Value]int) (int, bool) {
	n, whole := bottom, 0
	if field >= 0 {
		whole = -1
	}
	set := func(v ssa.Value, by int) bool {
		m, ok := d.deep(v, root, assume)
		if ok && m+by > n {
			n = m + by
		}
		return ok
	}
	for _, ref := range *al.Referrers() {
		switch i := ref.(type) {
		case *ssa.Store:
			if i.Addr != ssa.Value(al) || !set(i.Val, whole) {
				return 0, false
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			a := i.(ssa.Value)
			by := 1
			if f, ok := i.(*ssa.FieldAddr); ok && field >= 0 {
				by = 0
				if f.Field != field {
					continue
				}
			}
			for _, r2 := range *a.Referrers() {
				switch s := r2.(type) {
				case *ssa.Store:
					if s.Addr != a || !set(s.Val, by) {
						return 0, false
					}
				case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
					if nested(r2) {
						return 0, false
					}
				default:
					return 0, false
				}
			}
		case *ssa.UnOp, *ssa.DebugRef, *ssa.Slice:
		default:
			return 0, false
		}
	}
	return n, true
}

// nested: something is stored in a part of a part.
func nested(i ssa.Instruction) bool {
	v, ok := i.(ssa.Value)
	if !ok {
		return false
	}
	if _, ok := i.(*ssa.UnOp); ok {
		return false
	}
	for _, ref := range *v.Referrers() {
		switch r := ref.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr, *ssa.IndexAddr:
			if nested(r) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// deepCall: the result of a function that gives a part of an argument, or something made of parts.
func (d *descent) deepCall(c *ssa.Call, idx int, root map[ssa.Value]bool, assume map[ssa.Value]int) (int, bool) {
	f := c.Call.StaticCallee()
	if f == nil || !d.pr.inRepo(f) || len(f.Blocks) == 0 {
		return 0, false
	}
	most, some := bottom, map[ssa.Value]bool{}
	key := fmt.Sprintf("deep %s %d", f, idx)
	for i, p := range f.Params {
		if n, ok := d.deep(c.Call.Args[i], root, assume); ok {
			some[p] = true
			key += fmt.Sprint(" ", i)
			if n > most {
				most = n
			}
		}
	}
	by, ok := d.memo[key]
	if !ok {
		d.memo[key] = 1 << 20
		by = bottom
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if idx >= len(ret.Results) {
					by = 1 << 20
					break
				}
				n, ok := d.deep(ret.Results[idx], some, map[ssa.Value]int{})
				if !ok {
					n = 1 << 20
				}
				if n > by {
					by = n
				}
			}
		}
		d.memo[key] = by
	}
	if by >= 1<<20 {
		return 0, false
	}
	if most+by < bottom {
		return bottom, true
	}
	return most + by, true
}

func runTermination(pr *Program, r *Report) {
	const P = "C02"
	genM := pr.genMethod()
	if !r.check(P, "termination", "Generate", "exists", token.NoPos, genM != nil, "no Generate method of the code generator was found") {
		return
	}
	d := &descent{pr: pr, memo: map[string]int{}}
	g := needGen(pr)
	chain := map[*ssa.Function]bool{}
	for _, f := range pr.reachable(g.leaf) {
		chain[f] = true
	}
	m := gramModelOf(pr)
	skip := map[*ssa.Function]bool{}
	fns := map[*ssa.Function]bool{}
	var list []*ssa.Function
	add := func(roots ...*ssa.Function) {
		for _, f := range pr.reachable(roots...) {
			if !fns[f] && !skip[f] {
				fns[f] = true
				list = append(list, f)
			}
		}
	}
	// the lexer is followed step by step, the driver of the parser is compared with that of the parser generator
	if lp := pr.typ("", "MyLexer"); lp != nil {
		for _, n := range []string{"Lex", "Error"} {
			if f := pr.method("", "MyLexer", n); f != nil {
				for _, h := range pr.reachable(f) {
					skip[h] = true
				}
			}
		}
	}
	if m.err == nil {
		skip[m.d.fn] = true
		for _, f := range pr.reachable(m.d.fn) {
			if f.Pos().IsValid() && filepath.Base(pr.Prog.Fset.PositionFor(f.Pos(), false).Filename) == "y.go" {
				skip[f] = true
			}
		}
	}
	add(genM)
	add(pr.entries()...)
	if m.err == nil {
		for _, f := range pr.reachable(m.d.fn) {
			if !skip[f] {
				add(f)
			}
		}
	}
	for _, f := range list {
		why, pos := "", f.Pos()
		for _, l := range pr.loopsOf(f) {
			if w := d.loop(f, l); w != "" && !chain[f] && f != g.tagged {
				why = w
				pos = l.header.Instrs[0].Pos()
				for _, i := range l.header.Instrs {
					if !pos.IsValid() {
						pos = i.Pos()
					}
				}
			}
		}
		r.check(P, "loops", shortFn(f), "end", pos, why == "", "a loop may go on for ever: %s", why)
	}
	d.recursion(P, r, list, g.tagged)
	grammarEnds(P, m, r)
}

// loop says why a loop may not end.
func (d *descent) loop(f *ssa.Function, l *natLoop) string {
	// a range over a map, a string or a channel
	hasExit := false
	for b := range l.blocks {
		for _, s := range b.Succs {
			hasExit = hasExit || !l.blocks[s]
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			hasExit = true
		}
	}
	if !hasExit {
		return "there is no way out"
	}
	for b := range l.blocks {
		for _, i := range b.Instrs {
			n, ok := i.(*ssa.Next)
			if !ok || !d.always(l, b) {
				continue
			}
			if rg, ok := n.Iter.(*ssa.Range); ok && !l.blocks[rg.Block()] {
				if _, ok := rg.X.Type().Underlying().(*types.Map); ok {
					for c := range l.blocks {
						for _, j := range c.Instrs {
							if u, ok := j.(*ssa.MapUpdate); ok && types.Identical(u.Map.Type(), rg.X.Type()) {
								return "the map it ranges over may grow"
							}
						}
					}
				}
				return ""
			}
		}
	}
	flag, goOn := flagOf(l)
	for _, i := range l.header.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			continue
		}
		// goes to a part on each way around
		part, up, down := true, true, true
		var es []ssa.Value
		for k, e := range p.Edges {
			if !l.blocks[l.header.Preds[k]] {
				continue
			}
			if flag != nil && flag != p {
				es = goingOn(es, e, flag.Edges[k], l.header, goOn, 0)
			} else {
				es = append(es, e)
			}
		}
		for _, e := range es {
			part = part && d.from(e, p, map[ssa.Value]bool{}) == strictPart
			s, ok := stepOf(e, p, map[ssa.Value]bool{})
			up = up && ok && s > 0
			down = down && ok && s < 0
		}
		if part && structured(p.Type()) {
			return ""
		}
		if up && d.bounded(l, p, true) || down && d.bounded(l, p, false) {
			return ""
		}
	}
	return "nothing was found that gets closer to an end each time"
}

// flagOf is the variable whose value alone says whether a loop goes on, and the value for which it does.
func flagOf(l *natLoop) (*ssa.Phi, bool) {
	br, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	c, goOn := br.Cond, l.blocks[l.header.Succs[0]]
	if goOn == l.blocks[l.header.Succs[1]] {
		return nil, false
	}
	if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
		c, goOn = u.X, !goOn
	}
	p, ok := c.(*ssa.Phi)
	if !ok || p.Block() != l.header {
		return nil, false
	}
	return p, goOn
}

// goingOn collects the values a variable has on the ways on which the flag says the loop goes on.
func goingOn(es []ssa.Value, e, flag ssa.Value, header *ssa.BasicBlock, goOn bool, depth int) []ssa.Value {
	switch f := flag.(type) {
	case *ssa.Const:
		if constant.BoolVal(f.Value) != goOn {
			return es
		}
	case *ssa.Phi:
		if depth > 4 || f.Block() == header {
			break
		}
		p, ok := e.(*ssa.Phi)
		for i := range f.Edges {
			v := e
			if ok && p.Block() == f.Block() {
				v = p.Edges[i]
			}
			es = goingOn(es, v, f.Edges[i], header, goOn, depth+1)
		}
		return es
	}
	return append(es, e)
}

// structured: values that can not contain themselves; numbers have no parts.
func structured(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Interface, *types.Struct, *types.Slice, *types.Pointer, *types.Array:
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// always: every way around the loop passes the block.
func (d *descent) always(l *natLoop, b *ssa.BasicBlock) bool {
	for _, p := range l.header.Preds {
		if l.blocks[p] && !b.Dominates(p) {
			return false
		}
	}
	return true
}

// stepOf is by how much v is more than p, the least of the ways.
func stepOf(v ssa.Value, p *ssa.Phi, seen map[ssa.Value]bool) (int64, bool) {
	if v == ssa.Value(p) {
		return 0, true
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		k, ok := x.Y.(*ssa.Const)
		y := x.X
		if !ok && x.Op == token.ADD {
			k, ok = x.X.(*ssa.Const)
			y = x.Y
		}
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int || x.Op != token.ADD && x.Op != token.SUB {
			return 0, false
		}
		s, ok := stepOf(y, p, seen)
		if x.Op == token.SUB {
			return s - k.Int64(), ok
		}
		return s + k.Int64(), ok
	case *ssa.Phi:
		if seen[v] {
			return 0, false
		}
		seen[v] = true
		var m int64
		for i, e := range x.Edges {
			s, ok := stepOf(e, p, seen)
			if !ok {
				return 0, false
			}
			if i > 0 && (s > 0) != (m > 0) {
				return 0, false
			}
			if i == 0 || s > 0 && s < m || s < 0 && s > m {
				m = s
			}
		}
		return m, true
	}
	return 0, false
}

// bounded: a test met on every way around leaves the loop once the counter has passed something that stays.
func (d *descent) bounded(l *natLoop, p *ssa.Phi, up bool) bool {
	for b := range l.blocks {
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !d.always(l, b) {
			continue
		}
		stay := -1
		for k, s := range b.Succs {
			if l.blocks[s] {
				if stay >= 0 {
					stay = 2
				} else {
					stay = k
				}
			}
		}
		if stay != 0 && stay != 1 {
			continue
		}
		c, ok := i.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, y, op := c.X, c.Y, c.Op
		if _, ok := stepOf(x, p, map[ssa.Value]bool{}); !ok {
			x, y = y, x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		if _, ok := stepOf(x, p, map[ssa.Value]bool{}); !ok || !d.stays(l, y, 0) {
			continue
		}
		if stay == 1 {
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.GEQ:
				op = token.LSS
			case token.GTR:
				op = token.LEQ
			case token.LEQ:
				op = token.GTR
			default:
				continue
			}
		}
		if up && (op == token.LSS || op == token.LEQ) || !up && (op == token.GTR || op == token.GEQ) {
			return true
		}
	}
	return false
}

// stays: the value is the same each time around.
func (d *descent) stays(l *natLoop, v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.Global, *ssa.FreeVar:
		return true
	case ssa.Instruction:
		if !l.blocks[x.Block()] {
			return true
		}
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		return d.stays(l, x.X, depth+1) && d.stays(l, x.Y, depth+1)
	case *ssa.Convert:
		return d.stays(l, x.X, depth+1)
	case *ssa.Field:
		return d.stays(l, x.X, depth+1)
	case *ssa.FieldAddr:
		return d.stays(l, x.X, depth+1)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return d.stays(l, x.Call.Args[0], depth+1)
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return d.stays(l, x.X, depth+1)
		}
		// memory that nothing in the loop writes to
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			st := a.X.Type().Underlying().(*types.Pointer).Elem()
			return d.stays(l, a.X, depth+1) && !d.writes(l, func(addr ssa.Value) bool {
				f, ok := addr.(*ssa.FieldAddr)
				if ok {
					return f.Field == a.Field && types.Identical(f.X.Type().Underlying().(*types.Pointer).Elem(), st)
				}
				p, ok := addr.Type().Underlying().(*types.Pointer)
				return ok && types.Identical(p.Elem(), st)
			})
		case *ssa.Alloc:
			return !d.writes(l, func(addr ssa.Value) bool { return addr == ssa.Value(a) })
		case *ssa.Global:
			return !d.writes(l, func(addr ssa.Value) bool { return addr == ssa.Value(a) })
		}
	}
	return false
}

// writes: something in the loop, or in a function called from there, stores at such an address.
func (d *descent) writes(l *natLoop, is func(addr ssa.Value) bool) bool {
	bad := false
	look := func(b *ssa.BasicBlock) {
		for _, i := range b.Instrs {
			if s, ok := i.(*ssa.Store); ok && is(s.Addr) {
				bad = true
			}
		}
	}
	var roots []*ssa.Function
	for b := range l.blocks {
		look(b)
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil {
					roots = append(roots, f)
				} else if c.Common().IsInvoke() {
					roots = append(roots, d.pr.methodsFor(c.Common().Method, c.Common().Value.Type())...)
				}
			}
		}
	}
	for _, f := range d.pr.reachable(roots...) {
		for _, b := range f.Blocks {
			look(b)
		}
	}
	return bad
}

type callSite struct {
	c        ssa.CallInstruction
	from, to *ssa.Function
}

// shrinks: the greatest of some parameters of each function gets smaller around every cycle.
func (d *descent) shrinks(scc []*ssa.Function, calls []callSite) bool {
	type param struct {
		f *ssa.Function
		k int
	}
	var kinds []string
	has := map[string]bool{}
	for _, f := range scc {
		for _, p := range f.Params {
			if t := typeStr(p.Type()); structured(p.Type()) && !has[t] {
				has[t] = true
				kinds = append(kinds, t)
			}
		}
	}
	if len(kinds) > 12 {
		kinds = kinds[:12]
	}
	for _, c := range calls {
		if c.c.Common().IsInvoke() || c.c.Common().StaticCallee() == nil {
			return false
		}
	}
	memo := map[string]int{}
	deep := false
	part := func(n int, c callSite, k, j int) int {
		key := fmt.Sprint(n, k, j)
		v, ok := memo[key]
		if !ok {
			v = d.from(c.c.Common().Args[k], c.from.Params[j], map[ssa.Value]bool{})
			memo[key] = v
		}
		return v
	}
	for try := 2; try < 2<<len(kinds); try++ {
		set := try / 2
		deep = try%2 == 1
		in := map[param]bool{}
		for i, t := range kinds {
			if set&(1<<i) == 0 {
				continue
			}
			for _, f := range scc {
				for k, p := range f.Params {
					if typeStr(p.Type()) == t {
						in[param{f, k}] = true
					}
				}
			}
		}
		// what is passed for such a parameter is part of one of those of the caller
		best := func(n int, c callSite, k int) int {
			v := noPart
			if deep {
				key, roots := fmt.Sprint("deep ", n, k), map[ssa.Value]bool{}
				for j, p := range c.from.Params {
					if in[param{c.from, j}] {
						roots[p] = true
						key += fmt.Sprint(" ", j)
					}
				}
				if v, ok := memo[key]; ok {
					return v
				}
				if n, ok := d.deep(c.c.Common().Args[k], roots, map[ssa.Value]int{}); ok && n <= 0 {
					v = samePart
					if n < 0 {
						v = strictPart
					}
				}
				memo[key] = v
				return v
			}
			for j := range c.from.Params {
				if in[param{c.from, j}] {
					if w := part(n, c, k, j); w > v {
						v = w
					}
				}
			}
			return v
		}
		for ch := true; ch; {
			ch = false
			for n, c := range calls {
				for k, a := range c.c.Common().Args {
					if _, ok := a.(*ssa.Const); !ok && in[param{c.to, k}] && best(n, c, k) == noPart {
						delete(in, param{c.to, k})
						ch = true
					}
				}
			}
		}
		weak := map[*ssa.Function][]*ssa.Function{}
		for n, c := range calls {
			v, some := strictPart, false
			for k, a := range c.c.Common().Args {
				if _, ok := a.(*ssa.Const); !ok && in[param{c.to, k}] {
					v, some = least(v, best(n, c, k)), true
				}
			}
			if !some || v != strictPart {
				weak[c.from] = append(weak[c.from], c.to)
			}
		}
		state := map[*ssa.Function]int{}
		var cyc func(g *ssa.Function) bool
		cyc = func(g *ssa.Function) bool {
			state[g] = 1
			for _, h := range weak[g] {
				if state[h] == 1 || state[h] == 0 && cyc(h) {
					return true
				}
			}
			state[g] = 2
			return false
		}
		ok := true
		for _, g := range scc {
			// a function none of whose parameters is followed can not be on a cycle
			some := false
			for k := range g.Params {
				some = some || in[param{g, k}]
			}
			ok = ok && some && (state[g] != 0 || !cyc(g))
		}
		if ok {
			return true
		}
	}
	return false
}

// recursion: around every cycle of calls, a parameter goes to a part of itself.
func (d *descent) recursion(P string, r *Report, list []*ssa.Function, except *ssa.Function) {
	in := map[*ssa.Function]bool{}
	for _, f := range list {
		in[f] = true
	}
	var calls []callSite
	succ := map[*ssa.Function][]*ssa.Function{}
	for _, f := range list {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					// functions that are only mentioned may be called
					for _, o := range i.Operands(nil) {
						if g, ok := (*o).(*ssa.Function); ok && in[g] {
							succ[f] = append(succ[f], g)
						}
					}
					continue
				}
				var tos []*ssa.Function
				if g := c.Common().StaticCallee(); g != nil {
					tos = append(tos, g)
				} else if c.Common().IsInvoke() {
					tos = d.pr.methodsFor(c.Common().Method, c.Common().Value.Type())
				} else {
					// any function of the kind
					for _, g := range list {
						if types.Identical(g.Signature, c.Common().Signature()) || g.Parent() != nil && types.Identical(g.Signature, c.Common().Signature()) {
							tos = append(tos, g)
						}
					}
				}
				for _, g := range tos {
					if in[g] {
						calls = append(calls, callSite{c, f, g})
						succ[f] = append(succ[f], g)
					}
				}
			}
		}
	}
	reach := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range list {
		seen := map[*ssa.Function]bool{}
		var walk func(g *ssa.Function)
		walk = func(g *ssa.Function) {
			for _, h := range succ[g] {
				if !seen[h] {
					seen[h] = true
					walk(h)
				}
			}
		}
		walk(f)
		reach[f] = seen
	}
	done := map[*ssa.Function]bool{}
	for _, f := range list {
		if !reach[f][f] || done[f] || f == except {
			continue
		}
		var scc []*ssa.Function
		for _, g := range list {
			if reach[f][g] && reach[g][f] {
				scc = append(scc, g)
				done[g] = true
			}
		}
		member := map[*ssa.Function]bool{}
		for _, g := range scc {
			member[g] = true
		}
		if member[except] {
			continue
		}
		names := ""
		for _, g := range scc {
			names += " " + shortFn(g)
		}
		var inner []callSite
		for _, c := range calls {
			if member[c.from] && member[c.to] {
				inner = append(inner, c)
			}
		}
		r.check(P, "recursion", shortFn(f), "goes to parts", f.Pos(), d.shrinks(scc, inner), "the recursion through%s does not go to a part of one of the parameters each time around", names)
	}
}

// grammarEnds: no parse consists of ever more reductions without consuming a token.
func grammarEnds(P string, m *gramModel, r *Report) {
	if !r.check(P, "grammar", "asn1.y", "understood", token.NoPos, m.err == nil, "%v", m.err) {
		return
	}
	left := map[string]bool{}
	for _, p := range m.g.Productions {
		left[p.Left] = true
	}
	null := map[string]bool{}
	for ch := true; ch; {
		ch = false
		for _, p := range m.g.Productions {
			all := true
			for _, s := range p.Right {
				all = all && null[s]
			}
			if all && !null[p.Left] {
				null[p.Left] = true
				ch = true
			}
		}
	}
	unit, corner, hidden := map[string][]string{}, map[string][]string{}, map[[2]string]bool{}
	for _, p := range m.g.Productions {
		for i, s := range p.Right {
			if !left[s] {
				continue
			}
			before, after := true, true
			for j, t := range p.Right {
				if j < i {
					before = before && null[t]
				}
				if j > i {
					after = after && null[t]
				}
			}
			if before && after {
				unit[p.Left] = append(unit[p.Left], s)
			}
			if before {
				corner[p.Left] = append(corner[p.Left], s)
				if i > 0 {
					hidden[[2]string{p.Left, s}] = true
				}
			}
		}
	}
	reach := func(g map[string][]string, a string) map[string]bool {
		seen := map[string]bool{}
		var walk func(x string)
		walk = func(x string) {
			for _, y := range g[x] {
				if !seen[y] {
					seen[y] = true
					walk(y)
				}
			}
		}
		walk(a)
		return seen
	}
	for a := range left {
		r.check(P, "grammar", a, "is not derived from itself", token.NoPos, !reach(unit, a)[a], "%s derives itself and nothing else", a)
	}
	for e := range hidden {
		r.check(P, "grammar", e[0], "no hidden left recursion to "+e[1], token.NoPos, !reach(corner, e[1])[e[0]] && e[0] != e[1], "%s is recursive behind %s, which can be empty", e[0], e[1])
	}
}

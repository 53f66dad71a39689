package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Comparison of two functions in SSA form: they do the same if, going through both at once, the same loads, stores,
// calls, decisions and returns are met with corresponding operands. What has no effect does not matter, nor do
// the way control is split into blocks and the names of things.

type bisim struct {
	blocks map[*ssa.BasicBlock]*ssa.BasicBlock
	vals   map[ssa.Value]ssa.Value
	edges  map[*ssa.BasicBlock][][2]*ssa.BasicBlock // traversed edges into a block of the first function
	queue  [][2]*ssa.BasicBlock
	phis   []*ssa.Phi
	live   map[ssa.Value]bool
	// boundary blocks are not entered; they correspond to each other
	bound map[*ssa.BasicBlock]*ssa.BasicBlock
	fn    map[*ssa.Function]*ssa.Function // anonymous functions that were compared
	why   string
	alive map[*ssa.Function]map[*ssa.BasicBlock]bool
}

func newBisim() *bisim {
	return &bisim{blocks: map[*ssa.BasicBlock]*ssa.BasicBlock{}, vals: map[ssa.Value]ssa.Value{}, edges: map[*ssa.BasicBlock][][2]*ssa.BasicBlock{},
		live: map[ssa.Value]bool{}, bound: map[*ssa.BasicBlock]*ssa.BasicBlock{}, fn: map[*ssa.Function]*ssa.Function{}, alive: map[*ssa.Function]map[*ssa.BasicBlock]bool{}}
}

func (s *bisim) differ(format string, args ...interface{}) bool {
	if s.why == "" {
		s.why = fmt.Sprintf(format, args...)
	}
	return false
}

// isLoad tells instructions the result of which depends on the state of memory.
func isLoad(i ssa.Instruction) bool {
	switch x := i.(type) {
	case *ssa.UnOp:
		return x.Op == token.MUL || x.Op == token.ARROW
	case *ssa.Lookup, *ssa.Next, *ssa.Range:
		return true
	}
	return false
}

func isEffect(i ssa.Instruction) bool {
	switch i.(type) {
	case *ssa.Store, *ssa.Call, *ssa.If, *ssa.Return, *ssa.Defer, *ssa.RunDefers, *ssa.Panic, *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Select:
		return true
	}
	return false
}

// pureBuiltin calls have no effect.
func pureBuiltin(i ssa.Instruction) bool {
	c, ok := i.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && (b.Name() == "len" || b.Name() == "cap" || b.Name() == "min" || b.Name() == "max")
}

// markLive finds values that matter.
func (s *bisim) markLive(f *ssa.Function) {
	var work []ssa.Value
	var buf []*ssa.Value
	use := func(i ssa.Instruction) {
		for _, o := range i.Operands(buf[:0]) {
			if *o != nil && !s.live[*o] {
				s.live[*o] = true
				work = append(work, *o)
			}
		}
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if isEffect(i) && !pureBuiltin(i) && !s.deadStore(i) {
				use(i)
			}
		}
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if i, ok := v.(ssa.Instruction); ok {
			use(i)
		}
	}
}

// deadStore tells stores to local variables that are never read.
func (s *bisim) deadStore(i ssa.Instruction) bool {
	st, ok := i.(*ssa.Store)
	if !ok {
		return false
	}
	a, ok := st.Addr.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *a.Referrers() {
		if w, ok := r.(*ssa.Store); ok && w.Addr == a && w.Val != ssa.Value(a) {
			continue
		}
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		return false
	}
	return true
}

// matters tells instructions that have to correspond in order.
func (s *bisim) matters(i ssa.Instruction) bool {
	if isEffect(i) && !pureBuiltin(i) {
		return !s.deadStore(i)
	}
	if isLoad(i) {
		v, ok := i.(ssa.Value)
		return ok && s.live[v]
	}
	if a, ok := i.(*ssa.Alloc); ok {
		return s.live[a]
	}
	return false
}

// same compares functions f and g.
func (s *bisim) same(f, g *ssa.Function) bool {
	s.markLive(f)
	s.markLive(g)
	if len(f.Params) != len(g.Params) || len(f.FreeVars) != len(g.FreeVars) {
		return s.differ("number of parameters")
	}
	for i := range f.Params {
		s.vals[f.Params[i]] = g.Params[i]
	}
	for i := range f.FreeVars {
		s.vals[f.FreeVars[i]] = g.FreeVars[i]
	}
	if !s.pair(nil, f.Blocks[0], nil, g.Blocks[0]) {
		return false
	}
	for len(s.queue) > 0 {
		q := s.queue[0]
		s.queue = s.queue[1:]
		if !s.walk(q[0], q[1]) {
			return false
		}
	}
	return s.settle()
}

// settle compares the values of corresponding loop variables on corresponding edges.
func (s *bisim) settle() bool {
	for n := 0; n < len(s.phis); n++ {
		p := s.phis[n]
		q, ok := s.vals[p].(*ssa.Phi)
		if !ok {
			return s.differ("variable %s", p.Comment)
		}
		for _, e := range s.edges[p.Block()] {
			i, j := edgeIndex(e[0], p.Block()), edgeIndex(e[1], q.Block())
			if i < 0 || j < 0 {
				return s.differ("edges into block of %s", p.Comment)
			}
			if !s.eq(p.Edges[i], q.Edges[j]) {
				return s.differ("value of %s", p.Comment)
			}
		}
	}
	return true
}

func (s *bisim) pair(fromA *ssa.BasicBlock, a *ssa.BasicBlock, fromB *ssa.BasicBlock, b *ssa.BasicBlock) bool {
	if fromA != nil {
		s.edges[a] = append(s.edges[a], [2]*ssa.BasicBlock{fromA, fromB})
	}
	if x, ok := s.blocks[a]; ok {
		if x != b {
			return s.differ("control flow")
		}
		return true
	}
	s.blocks[a] = b
	if x, ok := s.bound[a]; ok {
		if x != b {
			return s.differ("control flow")
		}
		return true
	}
	s.queue = append(s.queue, [2]*ssa.BasicBlock{a, b})
	return true
}

// forward skips blocks that do nothing.
func (s *bisim) forward(from, b *ssa.BasicBlock) (*ssa.BasicBlock, *ssa.BasicBlock) {
	for n := 0; n < 100; n++ {
		if s.bound[b] != nil {
			return from, b
		}
		for _, x := range s.bound {
			if x == b {
				return from, b
			}
		}
		next := s.only(b)
		if next == nil {
			return from, b
		}
		for _, i := range b.Instrs {
			if p, ok := i.(*ssa.Phi); ok && s.live[p] && s.sole(p) == nil || s.matters(i) && !s.trivialIf(i) {
				return from, b
			}
		}
		from, b = b, next
	}
	return from, b
}

// trivialIf goes the same way whatever the condition is.
func (s *bisim) trivialIf(i ssa.Instruction) bool {
	x, ok := i.(*ssa.If)
	return ok && s.only(x.Block()) != nil
}

// only is the one way control goes on from the end of b.
func (s *bisim) only(b *ssa.BasicBlock) *ssa.BasicBlock {
	switch x := b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.Jump:
		return b.Succs[0]
	case *ssa.If:
		if c, ok := x.Cond.(*ssa.Const); ok && c.Value != nil {
			if constant.BoolVal(c.Value) {
				return b.Succs[0]
			}
			return b.Succs[1]
		}
		if b.Succs[0] == b.Succs[1] {
			return b.Succs[0]
		}
	}
	return nil
}

// segment collects what matters from b on while there is only one way to go and nothing joins.
func (s *bisim) segment(b *ssa.BasicBlock) (list []ssa.Instruction, last *ssa.BasicBlock) {
	for {
		for _, i := range b.Instrs {
			if s.matters(i) && !s.trivialIf(i) {
				list = append(list, i)
			}
		}
		n := s.only(b)
		if n == nil || s.preds(n) != 1 || s.isBound(n) {
			return list, b
		}
		b = n
	}
}

// reach finds the blocks control can get to.
func (s *bisim) reach(f *ssa.Function) map[*ssa.BasicBlock]bool {
	if m, ok := s.alive[f]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]bool{f.Blocks[0]: true}
	s.alive[f] = m
	work := []*ssa.BasicBlock{f.Blocks[0]}
	if f.Recover != nil {
		m[f.Recover] = true
		work = append(work, f.Recover)
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		next := b.Succs
		if n := s.only(b); n != nil {
			next = []*ssa.BasicBlock{n}
		}
		for _, n := range next {
			if !m[n] {
				m[n] = true
				work = append(work, n)
			}
		}
	}
	return m
}

// edge tells whether control can go from a block to the next.
func (s *bisim) edge(from, to *ssa.BasicBlock) bool {
	if !s.reach(from.Parent())[from] {
		return false
	}
	n := s.only(from)
	return n == nil || n == to
}

func (s *bisim) preds(b *ssa.BasicBlock) int {
	n := 0
	for _, p := range b.Preds {
		if s.edge(p, b) {
			n++
		}
	}
	return n
}

func (s *bisim) isBound(b *ssa.BasicBlock) bool {
	for x, y := range s.bound {
		if b == x || b == y {
			return true
		}
	}
	return false
}

func (s *bisim) walk(a, b *ssa.BasicBlock) bool {
	as, al := s.segment(a)
	bs, bl := s.segment(b)
	if len(as) != len(bs) {
		return s.differ("number of effects in %s", a.Comment)
	}
	for i := range as {
		if !s.effect(as[i], bs[i]) {
			return s.differ("%s", as[i])
		}
	}
	an, bn := s.only(al), s.only(bl)
	if (an == nil) != (bn == nil) {
		return s.differ("control flow after %s", al.Comment)
	}
	if an != nil {
		af, at := s.forward(al, an)
		bf, bt := s.forward(bl, bn)
		return s.pair(af, at, bf, bt)
	}
	if len(al.Succs) != len(bl.Succs) {
		return s.differ("control flow after %s", al.Comment)
	}
	for i := range al.Succs {
		af, at := s.forward(al, al.Succs[i])
		bf, bt := s.forward(bl, bl.Succs[i])
		if !s.pair(af, at, bf, bt) {
			return false
		}
	}
	return true
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

// effect compares two instructions that have to correspond.
func (s *bisim) effect(a, b ssa.Instruction) bool {
	if fmt.Sprintf("%T", a) != fmt.Sprintf("%T", b) {
		return false
	}
	ca, ok1 := a.(ssa.CallInstruction)
	cb, ok2 := b.(ssa.CallInstruction)
	if ok1 && ok2 {
		x, y := ca.Common(), cb.Common()
		if x.IsInvoke() != y.IsInvoke() || len(x.Args) != len(y.Args) || x.IsInvoke() && x.Method.Name() != y.Method.Name() {
			return false
		}
		if !s.eq(x.Value, y.Value) {
			return false
		}
		for i := range x.Args {
			if !s.eq(x.Args[i], y.Args[i]) {
				return false
			}
		}
	} else if x, ok := a.(*ssa.Alloc); ok {
		if typeStr(x.Type()) != typeStr(b.(*ssa.Alloc).Type()) {
			return false
		}
	} else if !s.operands(a, b) {
		return false
	}
	if x, ok := a.(ssa.Value); ok {
		s.vals[x] = b.(ssa.Value)
	}
	return true
}

func (s *bisim) operands(a, b ssa.Instruction) bool {
	var x, y []*ssa.Value
	x, y = a.Operands(x), b.Operands(y)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if (*x[i] == nil) != (*y[i] == nil) {
			return false
		}
		if *x[i] != nil && !s.eq(*x[i], *y[i]) {
			return false
		}
	}
	return true
}

// eq compares values.
func (s *bisim) eq(a, b ssa.Value) bool {
	if v, ok := s.vals[a]; ok {
		return v == b
	}
	if p, ok := b.(*ssa.Phi); ok {
		if _, ok := a.(*ssa.Phi); !ok {
			if v := s.sole(p); v != nil {
				return s.eq(a, v)
			}
		}
	}
	switch x := a.(type) {
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && typeStr(x.Type()) == typeStr(y.Type()) && x.String() == y.String()
	case *ssa.Global:
		y, ok := b.(*ssa.Global)
		return ok && x.String() == y.String()
	case *ssa.Builtin:
		y, ok := b.(*ssa.Builtin)
		return ok && x.Name() == y.Name()
	case *ssa.Function:
		y, ok := b.(*ssa.Function)
		if !ok {
			return false
		}
		if x.Parent() != nil && y.Parent() != nil {
			return s.closure(x, y)
		}
		return x.String() == y.String()
	case *ssa.Phi:
		if v := s.sole(x); v != nil {
			return s.eq(v, b)
		}
		if p, ok := b.(*ssa.Phi); ok {
			if v := s.sole(p); v != nil {
				return s.eq(a, v)
			}
		}
		y, ok := b.(*ssa.Phi)
		if !ok || s.blocks[x.Block()] != y.Block() {
			return false
		}
		s.vals[x] = y
		s.phis = append(s.phis, x)
		return true
	}
	ia, ok1 := a.(ssa.Instruction)
	ib, ok2 := b.(ssa.Instruction)
	if !ok1 || !ok2 || fmt.Sprintf("%T", a) != fmt.Sprintf("%T", b) || typeStr(a.Type()) != typeStr(b.Type()) {
		return false
	}
	if isLoad(ia) || isEffect(ia) && !pureBuiltin(ia) {
		return false // would have been met before
	}
	switch x := a.(type) {
	case *ssa.BinOp:
		if x.Op != b.(*ssa.BinOp).Op {
			return false
		}
	case *ssa.UnOp:
		if x.Op != b.(*ssa.UnOp).Op {
			return false
		}
	case *ssa.FieldAddr:
		if x.Field != b.(*ssa.FieldAddr).Field {
			return false
		}
	case *ssa.Field:
		if x.Field != b.(*ssa.Field).Field {
			return false
		}
	case *ssa.Extract:
		if x.Index != b.(*ssa.Extract).Index {
			return false
		}
	case *ssa.TypeAssert:
		if x.CommaOk != b.(*ssa.TypeAssert).CommaOk || typeStr(x.AssertedType) != typeStr(b.(*ssa.TypeAssert).AssertedType) {
			return false
		}
	case *ssa.MakeClosure:
		y := b.(*ssa.MakeClosure)
		fx, fy := x.Fn.(*ssa.Function), y.Fn.(*ssa.Function)
		if len(x.Bindings) != len(y.Bindings) || !s.closure(fx, fy) {
			return false
		}
		for i := range x.Bindings {
			if !s.eq(x.Bindings[i], y.Bindings[i]) {
				return false
			}
		}
		return true
	case *ssa.Alloc:
		return false
	}
	return s.operands(ia, ib)
}

// sole is the value of a variable that has the same one on all edges.
func (s *bisim) sole(x *ssa.Phi) ssa.Value {
	var v ssa.Value
	for i, e := range x.Edges {
		if e == ssa.Value(x) || !s.edge(x.Block().Preds[i], x.Block()) {
			continue
		}
		if v != nil && v != e {
			return nil
		}
		v = e
	}
	return v
}

func (s *bisim) closure(x, y *ssa.Function) bool {
	if v, ok := s.fn[x]; ok {
		return v == y
	}
	s.fn[x] = y
	t := newBisim()
	if !t.same(x, y) {
		return s.differ("%s: %s", x.Name(), t.why)
	}
	return true
}

// sameDriver compares the parsing functions of two generated parsers apart from their actions.
func sameDriver(a, b *driver) (bool, string) {
	s := newBisim()
	s.bound[a.first] = b.first
	if !s.same(a.fn, b.fn) {
		return false, s.why
	}
	if s.blocks[a.first] != b.first {
		return false, "actions are not reached"
	}
	if s.blocks[a.stop] != b.stop {
		return false, "control after the actions"
	}
	if !s.eq(a.sw, b.sw) {
		return false, "selection of the action"
	}
	if !s.eq(a.val, b.val) {
		return false, "value under construction"
	}
	// what the actions are given and how control goes on after them
	for i, ins := range a.stop.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if !s.live[p] {
			continue
		}
		q, ok := s.vals[p].(*ssa.Phi)
		if !ok {
			return false, fmt.Sprintf("variable %d after the actions", i)
		}
		x, y := regionEdge(a, p), regionEdge(b, q)
		if x == nil || y == nil || !s.eq(x, y) {
			return false, "value of " + p.Comment + " after the actions"
		}
	}
	for _, v := range a.uses() {
		_ = v
	}
	if !s.settle() {
		return false, s.why
	}
	ua, ub := a.uses(), b.uses()
	if len(ua) != len(ub) {
		return false, "values used in actions"
	}
	for k, v := range ua {
		if ub[k] == nil || !s.eq(v, ub[k]) {
			return false, "value of " + k + " in actions"
		}
	}
	if !s.settle() {
		return false, s.why
	}
	return true, ""
}

// regionEdge is the value of p after an action, if it is the same after all actions.
func regionEdge(d *driver, p *ssa.Phi) ssa.Value {
	var v ssa.Value
	for i, b := range p.Block().Preds {
		if !d.region[b] {
			continue
		}
		if v != nil && v != p.Edges[i] {
			return nil
		}
		v = p.Edges[i]
	}
	return v
}

// uses are the values from before that actions use, by role.
func (d *driver) uses() map[string]ssa.Value {
	m := map[string]ssa.Value{}
	var buf []*ssa.Value
	for b := range d.region {
		for _, i := range b.Instrs {
			for _, o := range i.Operands(buf[:0]) {
				v, ok := (*o).(ssa.Instruction)
				if !ok || d.region[v.Block()] && v.Block() != d.first || v.Block() == d.first && !isPhi(v) {
					continue
				}
				k := typeStr((*o).Type())
				k = strings.TrimPrefix(k, "*")
				if *o == d.sw {
					k = "production"
				}
				if *o == ssa.Value(d.val) {
					k = "value"
				}
				if x, ok := m[k]; ok && x != *o {
					k += "'"
				}
				m[k] = *o
			}
		}
	}
	return m
}

func isPhi(i ssa.Instruction) bool { _, ok := i.(*ssa.Phi); return ok }

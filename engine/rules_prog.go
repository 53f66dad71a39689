package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What parsing and code generation do with the values they are given can not go wrong and can not go on for ever.

func init() {
	register("no panic", "C03", "The generator, its recursive functions on their own, the entry points and the actions of the parser are interpreted; every site that could panic is excluded by the conditions on the way there, or by an inductive argument over all callers, all appends and all productions (what is nil nowhere is nil nowhere). No node given to the printer lacks a part it needs, unless an error was recorded.", runNoPanic)
	register("termination", "C02", "Loops and recursion in everything Generate and the entry points reach (the lexer and the chain of references aside, which have rules of their own): each loop is a range, counts towards a bound that stays, or goes to a part of what it looks at; each recursion goes to a part. The grammar derives no symbol from itself and has no hidden left recursion, so the parser can not reduce for ever.", runTermination)
}

// panicSites collects sites from events, in loops as well.
func panicSites(es []Event, seen map[*LoopInfo]bool, f func(e Event)) {
	for _, e := range es {
		if e.Kind == "panicsite" {
			f(e)
		}
		if e.Loop != nil && !seen[e.Loop] {
			seen[e.Loop] = true
			for _, p := range append(append([]LoopPath{}, e.Loop.Back...), e.Loop.Exits...) {
				panicSites(p.Events, seen, f)
			}
		}
	}
}

// never proves that values are not nil.
type never struct {
	pr      *Program
	seen    map[string]bool
	gram    *gramModel
	okNil   map[*ssa.Function]bool // functions that record an error
	orError bool                   // nil is fine where an error was recorded
}

func (n *never) once(k string) bool {
	if n.seen[k] {
		return true
	}
	n.seen[k] = true
	return false
}

var neverNil = map[string]bool{"fmt.Errorf": true, "errors.New": true, "bufio.NewReader": true, "strings.NewReader": true, "bytes.NewReader": true,
	"go/ast.NewIdent": true, "bytes.NewBufferString": true, "bytes.NewBuffer": true, "go/token.NewFileSet": true, "math/big.NewInt": true, "log.New": true}

// value says that v is not nil where block at is reached.
func (n *never) value(v ssa.Value, at *ssa.BasicBlock) bool {
	if n.guarded(v, at) {
		return true
	}
	switch x := v.(type) {
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeClosure, *ssa.Function, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global, *ssa.Builtin:
		return true
	case *ssa.ChangeInterface:
		return n.value(x.X, at)
	case *ssa.ChangeType:
		return n.value(x.X, at)
	case *ssa.TypeAssert:
		return !x.CommaOk && isIface(x.AssertedType)
	case *ssa.Call:
		return n.call(x, 0, at)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return n.call(c, x.Index, at)
		}
		if a, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 && isIface(a.AssertedType) {
			for _, ref := range *a.Referrers() {
				if e, ok := ref.(*ssa.Extract); ok && e.Index == 1 && n.holds(e, at, true) {
					return true
				}
			}
		}
		return false
	case *ssa.Phi:
		if n.once(fmt.Sprintf("phi %p", x)) {
			return true
		}
		for i, e := range x.Edges {
			if !n.edgeValue(e, x.Block().Preds[i], x.Block()) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		return n.param(x)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		switch a := x.X.(type) {
		case *ssa.IndexAddr:
			return n.elems(a.X.Type())
		case *ssa.FieldAddr:
			st := a.X.Type().Underlying().(*types.Pointer).Elem()
			if typeName(st) == "yySymType" {
				return n.symbol(structOf(st).Field(a.Field).Name())
			}
			return n.local(a.X, a.Field)
		case *ssa.Alloc:
			return n.stores(a, at)
		case *ssa.FreeVar:
			return n.captured(a)
		}
		return false
	}
	return false
}

// edgeValue is value on the way from one block to another.
func (n *never) edgeValue(v ssa.Value, from, to *ssa.BasicBlock) bool {
	if i, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok && len(from.Succs) == 2 && from.Succs[0] != from.Succs[1] {
		if n.tests(i.Cond, v, from.Succs[0] == to) {
			return true
		}
	}
	return n.value(v, from)
}

// stores: everything stored to a variable that does not escape is not nil.
func (n *never) stores(a *ssa.Alloc, at *ssa.BasicBlock) bool {
	if n.once(fmt.Sprintf("alloc %p", a)) {
		return true
	}
	some := false
	for _, ref := range *a.Referrers() {
		switch i := ref.(type) {
		case *ssa.Store:
			if i.Addr != ssa.Value(a) || !n.value(i.Val, i.Block()) {
				return false
			}
			some = some || i.Block() == a.Block() || i.Block().Dominates(at)
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			if !n.readOnly(i, a) {
				return false
			}
		default:
			return false
		}
	}
	return some
}

// readOnly: a function literal only reads a variable of the function it is in.
func (n *never) readOnly(mc *ssa.MakeClosure, v ssa.Value) bool {
	f := mc.Fn.(*ssa.Function)
	for k, b := range mc.Bindings {
		if b != v {
			continue
		}
		for _, ref := range *f.FreeVars[k].Referrers() {
			switch i := ref.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				if !n.readOnly(i, f.FreeVars[k]) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

// captured: the variable of the function around is not nil when a function literal is made.
func (n *never) captured(fv *ssa.FreeVar) bool {
	f := fv.Parent()
	some := false
	for _, b := range f.Parent().Blocks {
		for _, i := range b.Instrs {
			mc, ok := i.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(f) {
				continue
			}
			for k, v := range f.FreeVars {
				if v != fv {
					continue
				}
				some = true
				switch x := mc.Bindings[k].(type) {
				case *ssa.Alloc:
					if !n.stores(x, b) {
						return false
					}
				case *ssa.FreeVar:
					if !n.captured(x) {
						return false
					}
				default:
					return false
				}
			}
		}
	}
	return some
}

// local is the field of a struct that is built here.
func (n *never) local(x ssa.Value, field int) bool {
	a, ok := x.(*ssa.Alloc)
	if !ok {
		return false
	}
	some := false
	for _, ref := range *a.Referrers() {
		if s, ok := ref.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
			return false
		}
		f, ok := ref.(*ssa.FieldAddr)
		if !ok || f.Field != field {
			continue
		}
		for _, r2 := range *f.Referrers() {
			switch s := r2.(type) {
			case *ssa.Store:
				if s.Addr != ssa.Value(f) || !n.value(s.Val, s.Block()) {
					return false
				}
				some = true
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				return false
			}
		}
	}
	return some
}

// tests: does the condition being val say that v is not nil.
func (n *never) tests(c, v ssa.Value, val bool) bool {
	switch x := c.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return n.tests(x.X, v, !val)
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ || (x.Op == token.NEQ) != val {
			return false
		}
		isNil := func(w ssa.Value) bool { k, ok := w.(*ssa.Const); return ok && k.Value == nil }
		return isNil(x.Y) && sameRead(x.X, v) || isNil(x.X) && sameRead(x.Y, v)
	}
	return false
}

// sameRead: the same value, or the same field of the same variable read again.
func sameRead(a, b ssa.Value) bool { return a == b }

// guarded: a test on the way to the block says so.
func (n *never) guarded(v ssa.Value, at *ssa.BasicBlock) bool {
	for b := at; b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			break
		}
		i, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d.Succs[0] == d.Succs[1] {
			continue
		}
		for k, s := range d.Succs {
			if s == b && len(s.Preds) == 1 && n.tests(i.Cond, v, k == 0) {
				return true
			}
		}
	}
	return false
}

// holds: the boolean has the value wherever the block is reached.
func (n *never) holds(c ssa.Value, at *ssa.BasicBlock, val bool) bool {
	for b := at; b != nil && b.Idom() != nil; b = b.Idom() {
		d := b.Idom()
		i, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d.Succs[0] == d.Succs[1] {
			continue
		}
		for k, s := range d.Succs {
			if s == b && len(s.Preds) == 1 && i.Cond == c && (k == 0) == val {
				return true
			}
		}
	}
	return false
}

func (n *never) call(c *ssa.Call, idx int, at *ssa.BasicBlock) bool {
	if c.Call.IsInvoke() {
		fs := n.pr.methodsFor(c.Call.Method, c.Call.Value.Type())
		if len(fs) == 0 {
			return false
		}
		for _, f := range fs {
			if !n.result(f, idx) {
				return false
			}
		}
		return true
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		return b.Name() == "append" && len(c.Call.Args) == 2 && n.value(c.Call.Args[0], at)
	}
	f := c.Call.StaticCallee()
	if f == nil {
		return false
	}
	if !n.pr.inRepo(f) {
		return idx == 0 && neverNil[fnName(f)]
	}
	return n.result(f, idx)
}

// result: the function never returns nil there.
func (n *never) result(f *ssa.Function, idx int) bool {
	if n.once(fmt.Sprintf("result %s %d", f, idx)) {
		return true
	}
	some := false
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || idx >= len(ret.Results) {
			continue
		}
		some = true
		if n.orError && n.recorded(b) {
			continue
		}
		if !n.value(ret.Results[idx], b) {
			return false
		}
	}
	return some || len(f.Blocks) > 0
}

// recorded: an error is recorded wherever the block is reached.
func (n *never) recorded(at *ssa.BasicBlock) bool {
	for b := at; b != nil; b = b.Idom() {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && n.okNil[f] {
					return true
				}
			}
			if isErrorAppend(i) {
				return true
			}
		}
	}
	return false
}

// isErrorAppend: one more error is stored in a field that collects errors.
func isErrorAppend(i ssa.Instruction) bool {
	s, ok := i.(*ssa.Store)
	if !ok {
		return false
	}
	if _, ok := s.Addr.(*ssa.FieldAddr); !ok {
		return false
	}
	c, ok := s.Val.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	sl, ok2 := c.Type().Underlying().(*types.Slice)
	return ok && ok2 && b.Name() == "append" && types.Identical(sl.Elem(), errType)
}

// recorders finds functions that always record an error.
func (n *never) recorders() {
	n.okNil = map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, f := range n.pr.Funcs {
			if n.okNil[f] || len(f.Blocks) == 0 {
				continue
			}
			all, some := true, false
			for _, b := range f.Blocks {
				if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					some = true
					all = all && n.recorded(b)
				}
			}
			if all && some {
				n.okNil[f] = true
				ch = true
			}
		}
	}
}

// param: no caller passes nil.
func (n *never) param(p *ssa.Parameter) bool {
	f := p.Parent()
	if n.once(fmt.Sprintf("param %p", p)) {
		return true
	}
	idx := -1
	for i, q := range f.Params {
		if q == p {
			idx = i
		}
	}
	some := false
	stays := n.staysHere(f)
	for _, g := range n.pr.Funcs {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok && stays && !c.Common().IsInvoke() && c.Common().StaticCallee() == nil &&
					types.Identical(c.Common().Signature(), f.Signature) {
					if _, builtin := c.Common().Value.(*ssa.Builtin); !builtin {
						if !n.value(c.Common().Args[idx], b) {
							return false
						}
						some = true
					}
				}
				for _, o := range i.Operands(nil) {
					if *o != ssa.Value(f) {
						continue
					}
					c, ok := i.(ssa.CallInstruction)
					if stays && (!ok || c.Common().StaticCallee() != f) {
						continue
					}
					if !ok || c.Common().StaticCallee() != f || !n.value(c.Common().Args[idx], b) {
						return false
					}
					some = true
				}
				if c, ok := i.(ssa.CallInstruction); ok && c.Common().IsInvoke() && f.Signature.Recv() != nil && c.Common().Method.Name() == f.Name() {
					for _, m := range n.pr.methodsFor(c.Common().Method, c.Common().Value.Type()) {
						if m == f {
							if idx == 0 || !n.value(c.Common().Args[idx-1], b) {
								return false
							}
							some = true
						}
					}
				}
			}
		}
	}
	return some
}

// staysHere: f is a function value that only functions of the repository get hold of, directly as an argument, so that
// all its callers are calls of function values here. What it is bound to does not matter.
func (n *never) staysHere(f *ssa.Function) bool {
	if f.Signature.Recv() != nil {
		return false
	}
	passed := func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
			case ssa.CallInstruction:
				c := r.Common()
				if c.Value == v {
					continue
				}
				if g := c.StaticCallee(); g == nil || g.Pkg == nil && g.Parent() == nil || !n.pr.ours(g) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	found := false
	for _, g := range n.pr.Funcs {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				for _, o := range i.Operands(nil) {
					// functions it is passed to keep it here as well
					if *o != nil && types.Identical((*o).Type(), f.Signature) {
						switch x := i.(type) {
						case *ssa.MakeInterface:
							return false
						case *ssa.Return:
							if token.IsExported(g.Name()) {
								return false
							}
						case ssa.CallInstruction:
							if c := x.Common(); *o != c.Value && (c.StaticCallee() == nil || !n.pr.ours(c.StaticCallee())) {
								return false
							}
						}
					}
					if *o != ssa.Value(f) {
						continue
					}
					found = true
					switch x := i.(type) {
					case *ssa.MakeClosure:
						if !passed(x) {
							return false
						}
					case ssa.CallInstruction:
						if c := x.Common(); c.Value != ssa.Value(f) && (c.StaticCallee() == nil || !n.pr.ours(c.StaticCallee())) {
							return false
						}
					default:
						return false
					}
				}
			}
		}
	}
	return found
}

// elems: no slice of the type has nil in it.
func (n *never) elems(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	var et types.Type
	switch u := t.Underlying().(type) {
	case *types.Slice:
		et = u.Elem()
	case *types.Array:
		et = u.Elem()
	default:
		return false
	}
	if n.once("elems " + types.TypeString(et, nil)) {
		return true
	}
	isOf := func(t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return types.Identical(u.Elem(), et)
		case *types.Array:
			return types.Identical(u.Elem(), et)
		case *types.Pointer:
			a, ok := u.Elem().Underlying().(*types.Array)
			return ok && types.Identical(a.Elem(), et)
		}
		return false
	}
	for _, f := range n.pr.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					if a, ok := x.Addr.(*ssa.IndexAddr); ok && isOf(a.X.Type()) && !n.value(x.Val, b) {
						return false
					}
				case *ssa.MakeSlice:
					if k, ok := x.Len.(*ssa.Const); isOf(x.Type()) && !(ok && k.Value != nil && constant.Sign(k.Value) == 0) {
						return false
					}
				case *ssa.Alloc:
					// an array that is not filled
					if a, ok := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok && types.Identical(a.Elem(), et) {
						set := map[int64]bool{}
						for _, ref := range *x.Referrers() {
							if ia, ok := ref.(*ssa.IndexAddr); ok {
								if k, ok := ia.Index.(*ssa.Const); ok {
									set[k.Int64()] = true
								}
							}
						}
						if int64(len(set)) < a.Len() {
							return false
						}
					}
				case *ssa.Call:
					if g := x.Call.StaticCallee(); isOf(x.Type()) && g != nil && !n.pr.inRepo(g) {
						return false
					}
				}
			}
		}
	}
	return true
}

// symbol: no production gives its left side nil as the value of that type.
func (n *never) symbol(field string) bool {
	if n.once("symbol " + field) {
		return true
	}
	m := n.gram
	if m == nil || m.err != nil {
		return false
	}
	for _, p := range m.g.Productions {
		if p.Types[0] != field {
			continue
		}
		ft := m.fieldType(field)
		a := m.acts[p.No]
		if a == nil || a.err != nil || ft == nil {
			return false
		}
		for k := range a.outs {
			if a.outs[k].o.Kind != "stop" {
				continue
			}
			v := tField(a.outs[k].val, field, ft)
			ok := false
			switch v.Op {
			case OpIface, OpStruct, OpPtr:
				ok = true
			case OpList:
				ok = true
			case OpField:
				for i := 1; i <= len(p.Right); i++ {
					if i < len(p.Types) && p.Types[i] != "" && v == tField(tSymT(dollar(i), m.d.symType), p.Types[i], m.fieldType(p.Types[i])) {
						ok = n.symbol(p.Types[i])
					}
				}
			}
			if !ok {
				return false
			}
		}
	}
	return true
}

// methodsFor lists the methods of the repository a call through an interface can get to.
func (pr *Program) methodsFor(m *types.Func, it types.Type) []*ssa.Function {
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var fs []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for p := range pr.repo {
		sc := p.Pkg.Scope()
		names := sc.Names()
		sort.Strings(names)
		for _, name := range names {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || isIface(tn.Type()) {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if !types.Implements(t, iface) {
					continue
				}
				sel := pr.Prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
				if sel == nil {
					continue
				}
				f := pr.Prog.FuncValue(sel.Obj().(*types.Func))
				if f != nil && len(f.Blocks) > 0 && !seen[f] {
					seen[f] = true
					fs = append(fs, f)
				}
			}
		}
	}
	return fs
}

// genMethod is the Generate method of the code generator.
func (pr *Program) genMethod() *ssa.Function {
	it := pr.typ("", "CodeGenerator")
	if it == nil {
		return nil
	}
	for _, t := range pr.implementers("", it) {
		if m := pr.method("", typeName(t), "Generate"); m != nil {
			return m
		}
	}
	sc := pr.SSA[""].Pkg.Scope()
	for _, n := range sc.Names() {
		if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !isIface(tn.Type()) && types.Implements(types.NewPointer(tn.Type()), it.Underlying().(*types.Interface)) {
			return pr.method("", n, "Generate")
		}
	}
	return nil
}

// entries are the functions a user calls to parse.
func (pr *Program) entries() []*ssa.Function {
	var fs []*ssa.Function
	for _, n := range []string{"ParseString", "ParseStream", "ParseFile"} {
		if f := pr.SSA[""].Func(n); f != nil {
			fs = append(fs, f)
		}
	}
	return fs
}

// siteValue finds what is dereferenced or called at a position.
func siteValues(f *ssa.Function, pos token.Pos) (vs []ssa.Value, bs []*ssa.BasicBlock) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if i.Pos() != pos {
				continue
			}
			var v ssa.Value
			switch x := i.(type) {
			case ssa.CallInstruction:
				if x.Common().IsInvoke() {
					v = x.Common().Value
				} else if _, ok := x.Common().Value.(*ssa.Function); !ok {
					v = x.Common().Value
				}
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.UnOp:
				if x.Op == token.MUL {
					v = x.X
				}
			case *ssa.Store:
				v = x.Addr
			}
			if v != nil {
				vs = append(vs, v)
				bs = append(bs, b)
			}
		}
	}
	return
}

// callsItself: a function literal calls something that may be a function literal again.
func callsItself(f *ssa.Function) bool {
	if len(f.AnonFuncs) > 0 {
		return true
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			c, ok := i.(ssa.CallInstruction)
			if !ok || c.Common().IsInvoke() {
				continue
			}
			if _, ok := c.Common().Value.(*ssa.Builtin); !ok && c.Common().StaticCallee() == nil {
				return true
			}
		}
	}
	return false
}

func runNoPanic(pr *Program, r *Report) {
	const P = "C03"
	genM := pr.genMethod()
	if !r.check(P, "no panic", "Generate", "exists", token.NoPos, genM != nil, "no Generate method of the code generator was found") {
		return
	}
	m := gramModelOf(pr)
	fresh := func() *never { return &never{pr: pr, seen: map[string]bool{}, gram: m} }
	reach := pr.reachable(genM)
	roots := append([]*ssa.Function{genM}, pr.entries()...)
	rec := map[*ssa.Function]bool{}
	for _, f := range reach {
		if pr.recursive(f) && !rec[f] {
			// part of the function it is written in
			if f.Parent() != nil && pr.recursive(f.Parent()) && !callsItself(f) {
				continue
			}
			rec[f] = true
			roots = append(roots, f)
		}
	}
	lexers := map[*ssa.Function]bool{}
	for _, f := range pr.reachable(pr.entries()...) {
		if f.Name() == "yyParse" || f.Signature.Recv() != nil && (f.Name() == "Parse" || f.Name() == "Lex") {
			lexers[f] = true
		}
	}
	bad := map[string]bool{}
	excluded := 0
	seenLoops := map[*LoopInfo]bool{}
	type nilSite struct {
		fn  *ssa.Function
		pos token.Pos
	}
	nilSites := map[nilSite]bool{}
	site := func(what string, e Event) {
		if e.Fn == nil {
			return
		}
		ok := false
		if e.Name == "nil" {
			k := nilSite{e.Fn, e.Pos}
			known := false
			if ok, known = nilSites[k]; !known {
				vs, bs := siteValues(e.Fn, e.Pos)
				ok = len(vs) > 0
				for i, v := range vs {
					ok = ok && fresh().value(v, bs[i])
				}
				nilSites[k] = ok
			}
		}
		if ok {
			excluded++
			return
		}
		arg := ""
		for _, a := range e.Args {
			if s := clean(a); len(s) < 80 {
				arg += " " + s
			}
		}
		k := shortFn(e.Fn) + e.Name + arg
		if bad[k] {
			return
		}
		bad[k] = true
		r.check(P, "no panic", shortFn(e.Fn), e.Name+arg, e.Pos, false, "%s can panic here (%s):%s", what, map[string]string{"nil": "nil is dereferenced or called", "index": "an index may be out of range", "slice": "bounds of a slice may be out of range", "assert": "a value may be of another type", "divide": "division by zero", "panic": "explicit panic"}[e.Name], arg)
	}
	for _, f := range roots {
		in := newInterp(pr)
		for g := range rec {
			if g != f {
				in.opaque[g] = true
			}
		}
		for g := range lexers {
			in.opaque[g] = true
		}
		in.ptrParams = map[*Term]bool{}
		var args []*Term
		for i, p := range f.Params {
			a := tSymT(fmt.Sprintf("$%d.%s", i, p.Name()), p.Type())
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				in.ptrParams[a] = true
				if rec[f] {
					r.check(P, "no panic", shortFn(f), fmt.Sprintf("parameter %d", i), f.Pos(), fresh().param(p), "nil may be passed for parameter %s", p.Name())
				}
			}
			args = append(args, a)
		}
		outs, err := in.Run(f, args, newState())
		if !r.check(P, "no panic", shortFn(f), "is understood", f.Pos(), err == nil, "%v", err) {
			continue
		}
		for _, o := range outs {
			panicSites(o.St.events, seenLoops, func(e Event) { site("code generation or parsing", e) })
			if o.Kind == "exit" {
				r.check(P, "no panic", shortFn(f), "returns", o.Pos, false, "the program is ended")
			}
		}
		r.used(P, f, len(outs))
	}
	if m.err == nil {
		for _, p := range m.g.Productions {
			a := m.acts[p.No]
			if a.err != nil {
				r.check(P, "action", p.Left, ruleText(p.Left, p.Right), token.NoPos, false, "the action can not be analysed: %v", a.err)
				continue
			}
			ok := true
			for k := range a.outs {
				o := a.outs[k].o
				panicSites(o.St.events, seenLoops, func(e Event) { site("an action of the parser", e) })
				if o.Kind != "stop" {
					ok = false
				}
			}
			r.check(P, "action", p.Left, ruleText(p.Left, p.Right), token.NoPos, ok, "the action can end in a panic or leave the parser")
		}
		for _, b := range m.d.fn.Blocks {
			for _, i := range b.Instrs {
				if p, ok := i.(*ssa.Panic); ok {
					r.check(P, "no panic", shortFn(m.d.fn), "panic", p.Pos(), false, "an explicit panic in the parser")
				}
			}
		}
	} else {
		r.check(P, "no panic", "asn1.y", "understood", token.NoPos, false, "%v", m.err)
	}
	// library functions that panic on what they are given, or end the program
	for _, f := range append(append([]*ssa.Function{}, reach...), pr.reachable(pr.entries()...)...) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil || pr.inRepo(c.Common().StaticCallee()) {
					continue
				}
				name := fnName(c.Common().StaticCallee())
				base := name[strings.LastIndexByte(name, '.')+1:]
				if strings.HasPrefix(base, "Must") || strings.HasPrefix(base, "Fatal") || strings.HasPrefix(base, "Panic") || name == "os.Exit" || name == "runtime.Goexit" || base == "Repeat" || strings.HasPrefix(name, "reflect.") {
					r.check(P, "library call", shortFn(f), name, i.Pos(), false, "%s can panic or end the program", name)
				}
			}
		}
	}
	// nodes given to the printer
	n := fresh()
	n.recorders()
	nodes := 0
	for _, f := range reach {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Alloc:
					t := x.Type().Underlying().(*types.Pointer).Elem()
					need := printed[typeStr(t)]
					s, ok := t.Underlying().(*types.Struct)
					if !ok || len(need) == 0 {
						continue
					}
					for _, name := range need {
						set, fine := false, true
						for _, ref := range *x.Referrers() {
							switch a := ref.(type) {
							case *ssa.FieldAddr:
								if s.Field(a.Field).Name() != name {
									continue
								}
								for _, r2 := range *a.Referrers() {
									if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
										set = true
										q := &never{pr: pr, seen: map[string]bool{}, gram: m, okNil: n.okNil, orError: true}
										fine = fine && (q.value(st.Val, st.Block()) || q.recorded(st.Block()))
									}
								}
							case *ssa.Store:
								if a.Addr == ssa.Value(x) {
									set = true // copied from another one
								}
							}
						}
						nodes++
						r.check(P, "node", shortFn(f), typeStr(t)+" "+name, x.Pos(), set && fine, "a node is given to the printer whose %s can be missing, which makes the printer panic", name)
					}
				}
			}
		}
	}
	r.check(P, "node", "Generate", "nodes are built", genM.Pos(), nodes > 0, "no node was found")
	r.check(P, "no panic", "Generate", "sites", genM.Pos(), true, "%d sites", excluded)
}

// printed are the parts of nodes the printer can not do without.
var printed = map[string][]string{
	"go/ast.File": {"Name"}, "go/ast.ArrayType": {"Elt"}, "go/ast.StarExpr": {"X"}, "go/ast.Field": {"Type"}, "go/ast.TypeSpec": {"Name", "Type"},
	"go/ast.StructType": {"Fields"}, "go/ast.InterfaceType": {"Methods"}, "go/ast.CallExpr": {"Fun"}, "go/ast.UnaryExpr": {"X"}, "go/ast.SelectorExpr": {"X", "Sel"},
	"go/ast.ImportSpec": {"Path"}, "go/ast.MapType": {"Key", "Value"}, "go/ast.ParenExpr": {"X"}, "go/ast.BinaryExpr": {"X", "Y"}, "go/ast.KeyValueExpr": {"Key", "Value"},
	"go/ast.CompositeLit": nil,
}

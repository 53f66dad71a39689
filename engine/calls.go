package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) callOperands(fr *Frame, st *State, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, st.norm(in.val(fr, st, a)))
	}
	return st.norm(in.val(fr, st, c.Value)), args
}

func ret(st *State, rs ...*Term) []Outcome {
	return []Outcome{{Kind: "ret", Results: rs, St: st}}
}

func (in *Interp) call(fr *Frame, st *State, c *ssa.CallCommon, instr ssa.Value, pos token.Pos) []Outcome {
	fnT, args := in.callOperands(fr, st, c)
	return in.callTerm(fr, st, c, fnT, args, instr, pos)
}

func resultTypes(sig *types.Signature) []types.Type {
	var ts []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		ts = append(ts, sig.Results().At(i).Type())
	}
	return ts
}

// results builds the result terms of a call that is not looked into.
func callResults(t *Term, sig *types.Signature) []*Term {
	ts := resultTypes(sig)
	switch len(ts) {
	case 0:
		return nil
	case 1:
		if t.Type == nil {
			t.Type = ts[0]
		}
		return []*Term{t}
	}
	var rs []*Term
	for i, rt := range ts {
		r := tRes(t, fmt.Sprint(i))
		if r.Type == nil {
			r.Type = rt
		}
		rs = append(rs, r)
	}
	return rs
}

func (in *Interp) callTerm(fr *Frame, st *State, c *ssa.CallCommon, fnT *Term, args []*Term, instr ssa.Value, pos token.Pos) []Outcome {
	sig := c.Signature()
	if c.IsInvoke() {
		recv := fnT
		m := c.Method
		if recv.Op == OpIface {
			if f := in.pr.Prog.LookupMethod(recv.Typ, m.Pkg(), m.Name()); f != nil {
				return in.callFn(fr, st, f, append([]*Term{recv.Args[0]}, args...), nil, sig, pos)
			}
		}
		for _, l := range st.lits {
			if l.Op == OpIsType && l.Args[0] == recv && !isIface(l.Typ) {
				if f := in.pr.Prog.LookupMethod(l.Typ, m.Pkg(), m.Name()); f != nil {
					return in.callFn(fr, st, f, append([]*Term{tAssert(recv, l.Typ)}, args...), nil, sig, pos)
				}
			}
		}
		if isNil, known := st.decide(tBin("==", recv, tNil())); !known || isNil {
			st.event(Event{Kind: "panicsite", Name: "nil", Args: []*Term{recv}, Pos: pos, Fn: fr.fn})
			st.suppose(tNot(tBin("==", recv, tNil())))
		}
		name := "." + m.Name()
		if in.ext != nil {
			if outs, ok := in.ext(fr, st, "invoke "+shortType(c.Value.Type())+name, append([]*Term{recv}, args...), sig, pos); ok {
				return outs
			}
		}
		if in.pr.pureInvoke(m) {
			return ret(st, callResults(tCall(name, append([]*Term{recv}, args...)...), sig)...)
		}
		return in.extern(fr, st, "invoke "+shortType(c.Value.Type())+name, append([]*Term{recv}, args...), sig, pos)
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		return in.builtin(fr, st, f, c, args, pos)
	case *ssa.Function:
		return in.callFn(fr, st, f, args, nil, sig, pos)
	}
	switch fnT.Op {
	case OpFunc:
		return in.callFn(fr, st, fnT.Fn, args, nil, sig, pos)
	case OpClosure:
		return in.callFn(fr, st, fnT.Fn, args, fnT.Args, sig, pos)
	}
	return in.extern(fr, st, "dynamic "+fnT.String(), args, sig, pos)
}

func fnName(f *ssa.Function) string {
	if f.Object() != nil {
		if fo, ok := f.Object().(*types.Func); ok {
			return fo.FullName()
		}
	}
	return f.String()
}

func (in *Interp) callFn(fr *Frame, st *State, f *ssa.Function, args, bindings []*Term, sig *types.Signature, pos token.Pos) []Outcome {
	if h := in.handler[f]; h != nil {
		if t, ok := h(in, st, args); ok {
			if t == nil {
				return ret(st)
			}
			return ret(st, callResults(t, sig)...)
		}
	}
	if m := in.multi[f]; m != nil {
		return m(in, fr, st, args, pos)
	}
	if in.initMode != nil && f.Name() == "init" && f.Pkg != in.initMode {
		return ret(st)
	}
	if !in.pr.inRepo(f) || len(f.Blocks) == 0 {
		if in.ext != nil {
			if outs, ok := in.ext(fr, st, fnName(f), args, sig, pos); ok {
				return outs
			}
		}
		return in.model(fr, st, f, args, sig, pos)
	}
	if in.prod != nil && !in.opaque[f] && in.prod.tabulated(f) {
		return in.prod.call(fr, st, f, args, bindings, pos)
	}
	rec := in.opaque[f]
	for _, s := range fr.stack {
		if s == f {
			rec = true
		}
	}
	if rec {
		return in.opaqueCall(st, f, args, sig, pos, fr.fn)
	}
	if len(fr.stack) > 40 {
		in.fail("call depth at %s", f)
	}
	outs := in.runFunc(f, args, bindings, st, fr.stack)
	return outs
}

// opaqueCall stands for a call whose body is not looked into: its result is a term of its arguments,
// and whatever it (transitively) may write is forgotten.
func (in *Interp) opaqueCall(st *State, f *ssa.Function, args []*Term, sig *types.Signature, pos token.Pos, from *ssa.Function) []Outcome {
	var sn []*Term
	for _, a := range args {
		if a.Op == OpObj && st.heap[a.Obj] != nil {
			if n := in.named[types.TypeString(st.heap[a.Obj].typ, nil)]; n != nil {
				sn = append(sn, n)
				continue
			}
		}
		sn = append(sn, st.snapshot(a))
	}
	name := in.pr.roleName(f)
	t := tCall(name, sn...)
	rs := callResults(t, sig)
	mod := in.pr.modset(f)
	st.event(Event{Kind: "call", Name: name, Args: sn, Res: t, Pos: pos, Fn: from})
	// objects passed by pointer may be written
	for i, a := range args {
		if a.Op != OpObj {
			continue
		}
		o := st.heap[a.Obj]
		if o == nil {
			continue
		}
		if _, isStruct := o.typ.Underlying().(*types.Struct); isStruct {
			continue // by field below
		}
		if mod.params[i] || mod.unknown {
			c := *o
			c.content = mk(Term{Op: OpCall, Name: fmt.Sprintf("out%d:%s", i, name), Args: sn, Type: o.typ})
			st.heap[a.Obj] = &c
		}
	}
	call := st.fresh("call:" + name)
	for id, o := range st.heap {
		s, ok := o.typ.Underlying().(*types.Struct)
		if !ok || o.glob != nil {
			continue
		}
		if o.fresh && !in.reachable(st, id, args) {
			continue
		}
		content := o.content
		for i := 0; i < s.NumFields(); i++ {
			fld := s.Field(i)
			how, ok := mod.fields[fieldKey{types.TypeString(o.typ, nil), fld.Name()}]
			if !ok {
				continue
			}
			nv := mk(Term{Op: OpSym, Name: fmt.Sprintf("%s.%s@%s", st.objName(id), fld.Name(), call), Type: fld.Type()})
			if how == modGrow {
				nv = tList(tSpread(tField(content, fld.Name(), fld.Type())), tSpread(nv))
			}
			content = setField(content, o.typ, fld.Name(), nv)
		}
		if content != o.content {
			c := *o
			c.content = content
			st.heap[id] = &c
		}
	}
	if mod.stream {
		in.newEpoch(st, call)
	}
	return ret(st, rs...)
}

// reachable: may a callee reach object id from args.
func (in *Interp) reachable(st *State, id int, args []*Term) bool {
	seen := map[int]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		return anyTerm(t, func(x *Term) bool {
			if x.Op != OpObj {
				return false
			}
			if x.Obj == id {
				return true
			}
			if seen[x.Obj] {
				return false
			}
			seen[x.Obj] = true
			if o := st.heap[x.Obj]; o != nil {
				return walk(o.content)
			}
			return false
		})
	}
	for _, a := range args {
		if walk(a) {
			return true
		}
	}
	// reachable from memory that existed before
	for oid, o := range st.heap {
		if !o.fresh && !seen[oid] {
			seen[oid] = true
			if walk(o.content) {
				return true
			}
		}
	}
	return false
}

func (in *Interp) newEpoch(st *State, name string) {
	s := st.stream.clone()
	s.Consumed = append(s.Consumed, s.Pos)
	s.Epoch = st.stream.Epoch + "/" + name
	s.Pos = 0
	s.CanUnrd = false
	s.Kinds = map[int]string{}
	s.Touched = false
	st.stream = s
}

func (in *Interp) builtin(fr *Frame, st *State, f *ssa.Builtin, c *ssa.CallCommon, args []*Term, pos token.Pos) []Outcome {
	switch f.Name() {
	case "len":
		x := args[0]
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			x = mapContent(st, x)
		}
		if pt, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
			if a, ok := pt.Elem().Underlying().(*types.Array); ok {
				return ret(st, tInt(a.Len()))
			}
		}
		t := tLen(x)
		if t.Type == nil {
			t.Type = types.Typ[types.Int]
		}
		return ret(st, t)
	case "cap":
		return ret(st, tCall("cap", args[0]))
	case "append":
		b := args[1]
		if s, ok := b.strVal(); ok {
			b = tCall("bytes", tStr(s))
		}
		t := tAppend(args[0], b)
		if t.Type == nil {
			t.Type = c.Signature().Results().At(0).Type()
		}
		return ret(st, t)
	case "copy":
		st.event(Event{Kind: "store", Name: "copy", Args: args, Pos: pos, Fn: fr.fn})
		return ret(st, tSymT(st.fresh("copied"), types.Typ[types.Int]))
	case "delete":
		st.event(Event{Kind: "store", Name: "delete", Args: args, Pos: pos, Fn: fr.fn})
		if args[0].Op == OpObj {
			o := *st.heap[args[0].Obj]
			o.content = mk(Term{Op: OpWith, Name: "delete", Args: []*Term{o.content, args[1]}, Type: o.typ})
			st.heap[args[0].Obj] = &o
		}
		return ret(st)
	case "recover":
		if in.ext != nil {
			st.event(Event{Kind: "recover", Pos: pos, Fn: fr.fn})
		}
		return ret(st, tNil())
	case "print", "println":
		if in.ext != nil {
			if outs, ok := in.ext(fr, st, "builtin "+f.Name(), args, c.Signature(), pos); ok {
				return outs
			}
		}
	case "ssa:wrapnilchk":
		return ret(st, args[0])
	}
	return in.extern(fr, st, "builtin "+f.Name(), args, c.Signature(), pos)
}

// extern is a call into unknown code: recorded as an event, its results are terms.
func (in *Interp) extern(fr *Frame, st *State, name string, args []*Term, sig *types.Signature, pos token.Pos) []Outcome {
	var sn []*Term
	for _, a := range args {
		sn = append(sn, st.snapshot(a))
	}
	t := tCall(st.fresh(name), sn...)
	st.event(Event{Kind: "call", Name: name, Args: sn, Res: t, Pos: pos, Fn: fr.fn})
	if !in.pr.readOnlyExtern(name) {
		// memory reachable from the arguments may be written
		for i, a := range args {
			in.havocReach(st, a, fmt.Sprintf("%s#%d", t.Name, i), map[int]bool{})
		}
	}
	return ret(st, callResults(t, sig)...)
}

func (in *Interp) havocReach(st *State, a *Term, tag string, seen map[int]bool) {
	anyTerm(a, func(x *Term) bool {
		if x.Op == OpObj && !seen[x.Obj] {
			seen[x.Obj] = true
			if o := st.heap[x.Obj]; o != nil && o.glob == nil {
				in.havocReach(st, o.content, tag, seen)
				c := *o
				c.content = mk(Term{Op: OpSym, Name: fmt.Sprintf("obj%d@%s", x.Obj, tag), Type: o.typ})
				c.escaped = true
				st.heap[x.Obj] = &c
			}
		}
		return false
	})
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "errors": true, "math": true, "path": true, "path/filepath": true}

// model interprets calls of functions outside of the repository.
func (in *Interp) model(fr *Frame, st *State, f *ssa.Function, args []*Term, sig *types.Signature, pos token.Pos) []Outcome {
	name := fnName(f)
	if in.prod != nil {
		if outs, ok := in.prod.model(fr, st, f, name, args, sig, pos); ok {
			return outs
		}
	}
	switch name {
	case "unicode/utf8.DecodeRuneInString":
		x := args[0]
		if x.Op == OpConcat {
			x = x.Args[0]
		}
		if x.Op == OpConv && x.Name == "runestr" {
			return ret(st, x.Args[0], mk(Term{Op: OpCall, Name: "runelen", Args: []*Term{x.Args[0]}, Type: types.Typ[types.Int]}))
		}
	case "unicode.Is", "unicode.In":
		// membership in tables that have a name
		r, tabs := args[0], []*Term{args[1]}
		if name == "unicode.Is" {
			r, tabs = args[1], []*Term{args[0]}
		} else if args[1].Op == OpList {
			tabs = nil
			for _, a := range args[1].Args {
				if a.Op != OpElem {
					tabs = append(tabs, a)
					continue
				}
				tabs = append(tabs, a.Args[0])
			}
		}
		var cs []*Term
		for _, t := range tabs {
			n := strings.TrimPrefix(t.Name, "global:")
			if t.Op != OpSym || runeTables[n] == nil {
				cs = nil
				break
			}
			c := tCall("in "+n, r)
			c.Type = types.Typ[types.Bool]
			cs = append(cs, tNot(c))
		}
		if cs != nil {
			return ret(st, tNot(tAll(cs...)))
		}
	case "fmt.Sprint", "fmt.Sprintf", "strconv.FormatBool":
		// texts of truth values are told apart
		l := args[len(args)-1]
		var bv *Term
		if name == "strconv.FormatBool" {
			bv = l
		} else if l.Op == OpList {
			for _, a := range l.Args {
				if a.Op == OpElem && a.Args[0].Op == OpIface && !hasMethod(a.Args[0].Typ, "Error", "String", "Format", "GoString") {
					if b, ok := a.Args[0].Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
						bv = a.Args[0].Args[0]
					}
				}
			}
		}
		if bv == nil {
			break
		}
		if v, ok := bv.boolVal(); ok {
			if name == "strconv.FormatBool" {
				return ret(st, tStr(fmt.Sprint(v)))
			}
			break
		}
		t, ff := in.cases(st, bv)
		var outs []Outcome
		for i, list := range [][]*State{t, ff} {
			for _, s := range list {
				as := append([]*Term{}, args...)
				as[len(as)-1] = subst(as[len(as)-1], map[*Term]*Term{bv: tBool(i == 0)}, map[*Term]*Term{})
				outs = append(outs, in.model(fr, s, f, as, sig, pos)...)
			}
		}
		return outs
	case "math.IsInf":
		if n, ok := args[1].intVal(); ok && n != 0 {
			var outs []Outcome
			t, ff := in.cases(st, tCall(name, args[0], tInt(0)))
			for _, s := range ff {
				outs = append(outs, ret(s, tBool(false))...)
			}
			for _, s := range t {
				neg, pos := in.cases(s, tBin("<", args[0], tConst(constant.MakeInt64(0), args[0].Type)))
				for _, x := range neg {
					outs = append(outs, ret(x, tBool(n < 0))...)
				}
				for _, x := range pos {
					outs = append(outs, ret(x, tBool(n > 0))...)
				}
			}
			return outs
		}
	}
	one := func(t *Term) []Outcome { return ret(st, callResults(t, sig)...) }
	switch name {
	case "go/ast.NewIdent":
		elem := sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		return ret(st, st.alloc(elem, setField(zero(elem), elem, "Name", args[0])))
	case "fmt.Sprintf":
		if t := in.sprintf(st, args[0], args[1]); t != nil {
			return ret(st, t)
		}
		return one(tCall(name, st.snapshot(args[0]), st.snapshot(args[1])))
	case "fmt.Sprint":
		if t := in.sprint(st, args[0], false); t != nil {
			return ret(st, t)
		}
		return one(tCall(name, st.snapshot(args[0])))
	case "fmt.Sprintln":
		if t := in.sprint(st, args[0], true); t != nil {
			return ret(st, t)
		}
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		// to a buffer
		if args[0].Op == OpIface && isBufType(args[0].Typ) && in.bufContent(st, args[0].Args[0]) != nil {
			var t *Term
			switch name {
			case "fmt.Fprintf":
				t = in.sprintf(st, args[1], args[2])
			default:
				t = in.sprint(st, args[1], name == "fmt.Fprintln")
			}
			if t != nil && in.bufAppend(st, args[0].Args[0], t) {
				return ret(st, tSymT("n", types.Typ[types.Int]), tNil())
			}
		}
	case "fmt.Errorf":
		t := in.sprintf(st, args[0], args[1])
		if t == nil {
			t = tCall("fmt.Sprintf", st.snapshot(args[0]), st.snapshot(args[1]))
		}
		return one(tCall("fmt.Errorf", t))
	case "strconv.Itoa":
		return ret(st, tFmt("dec", args[0]))
	case "strconv.FormatInt":
		if n, ok := args[1].intVal(); ok && n == 10 {
			return ret(st, tFmt("dec", args[0]))
		}
	case "strconv.Quote":
		return ret(st, tFmt("q", args[0]))
	case "strings.ReplaceAll":
		return one(tCall("strings.Replace", args[0], args[1], args[2], tInt(-1)))
	case "strings.Replace":
		if s, ok := args[0].strVal(); ok {
			if a, ok := args[1].strVal(); ok {
				if b, ok := args[2].strVal(); ok {
					if n, ok := args[3].intVal(); ok {
						return ret(st, tStr(strings.Replace(s, a, b, int(n))))
					}
				}
			}
		}
		return one(tCall(name, args...))
	case "strings.Title":
		if s, ok := args[0].strVal(); ok {
			return ret(st, tStr(strings.Title(s)))
		}
	case "strings.Join":
		l := st.snapshot(args[0])
		if l.Op == OpList && minLen(l) == len(l.Args) {
			var parts []*Term
			for i, a := range l.Args {
				if i > 0 {
					parts = append(parts, args[1])
				}
				parts = append(parts, a.Args[0])
			}
			return ret(st, tConcat(parts...))
		}
		return one(tCall(name, l, args[1]))
	case "bytes.NewBufferString", "bytes.NewBuffer":
		elem := sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		init := args[0]
		if init.Op == OpList && len(init.Args) == 0 || init.Op == OpNil {
			init = tStr("")
		}
		return ret(st, st.alloc(elem, mk(Term{Op: OpCall, Name: "buffer", Args: []*Term{init}, Type: elem})))
	case "(*bytes.Buffer).String", "(*strings.Builder).String":
		if b := in.bufContent(st, args[0]); b != nil {
			if b.Type == nil {
				b.Type = types.Typ[types.String]
			}
			return ret(st, b)
		}
	case "(*bytes.Buffer).Bytes":
		if b := in.bufContent(st, args[0]); b != nil {
			return one(mk(Term{Op: OpCall, Name: "bytes", Args: []*Term{b}}))
		}
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		if b := in.bufContent(st, args[0]); b != nil {
			return one(tLen(b))
		}
	case "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune":
		if in.bufAppend(st, args[0], runeStr(args[1])) {
			return ret(st, tSymT("n", types.Typ[types.Int]), tNil())
		}
	case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte":
		if n, ok := args[1].intVal(); ok && n >= 0 && n < 0x80 {
			if in.bufAppend(st, args[0], tStr(string(rune(n)))) {
				return ret(st, tNil())
			}
		}
		if in.bufAppend(st, args[0], mk(Term{Op: OpConv, Name: "bytestr", Args: []*Term{args[1]}})) {
			return ret(st, tNil())
		}
	case "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString":
		if in.bufAppend(st, args[0], args[1]) {
			return ret(st, tSymT("n", types.Typ[types.Int]), tNil())
		}
	case "(*bytes.Buffer).Write":
		if in.bufAppend(st, args[0], mk(Term{Op: OpCall, Name: "str", Args: []*Term{st.snapshot(args[1])}})) {
			return ret(st, tSymT("n", types.Typ[types.Int]), tNil())
		}
	case "os.Exit":
		st.event(Event{Kind: "call", Name: name, Args: args, Pos: pos, Fn: fr.fn})
		in.count()
		return []Outcome{{Kind: "exit", Results: args, St: st, Pos: pos}}
	case "(*bufio.Reader).ReadRune":
		return in.readRune(st)
	case "(*bufio.Reader).UnreadRune":
		s := st.stream.clone()
		s.Touched = true
		if s.CanUnrd {
			s.Pos--
			s.CanUnrd = false
			st.stream = s
			return ret(st, tNil())
		}
		st.stream = s
		e := tSymT("errInvalidUnreadRune", types.Universe.Lookup("error").Type())
		st.assume(tNot(tBin("==", e, tNil())))
		return ret(st, e)
	case "(*bufio.Reader).Discard":
		n, ok := args[1].intVal()
		if !ok {
			in.fail("Discard of %s", args[1])
		}
		s := st.stream.clone()
		s.Touched = true
		for i := 0; i < int(n); i++ {
			if s.Kinds[s.Pos] != "rune" {
				st.event(Event{Kind: "discard", Name: "unknown", Args: []*Term{tInt(int64(s.Pos))}, Pos: pos, Fn: fr.fn})
			} else if d, ok := st.dom[s.elem(s.Pos)]; ok {
				for r := range d {
					if r > 127 {
						st.event(Event{Kind: "discard", Name: "wide", Args: []*Term{tInt(int64(s.Pos))}, Pos: pos, Fn: fr.fn})
						break
					}
				}
			}
			s.Pos++
		}
		s.CanUnrd = false
		st.stream = s
		return ret(st, args[1], tNil())
	case "(*bufio.Reader).Peek":
		st.event(Event{Kind: "call", Name: name, Args: args, Pos: pos, Fn: fr.fn})
		s := st.stream.clone()
		s.CanUnrd = false
		s.Touched = true
		st.stream = s
		t := tCall(st.fresh("peek"), args[1])
		return ret(st, callResults(t, sig)...)
	case "bufio.NewReader", "strings.NewReader", "bytes.NewReader":
		return one(tCall(name, st.snapshot(args[0])))
	}
	if f.Pkg != nil && purePkgs[f.Pkg.Pkg.Path()] && f.Signature.Recv() == nil {
		sn := make([]*Term, len(args))
		for i, a := range args {
			sn[i] = st.snapshot(a)
		}
		t := tCall(name, sn...)
		if len(sn) == 1 {
			if sn[0].isConst() {
				t = foldPure(t)
			}
		}
		return one(t)
	}
	if in.pr.pureExtern[name] {
		sn := make([]*Term, len(args))
		for i, a := range args {
			sn[i] = st.snapshot(a)
		}
		return one(tCall(name, sn...))
	}
	return in.extern(fr, st, name, args, sig, pos)
}

func runeStr(r *Term) *Term {
	if n, ok := r.intVal(); ok {
		return tStr(string(rune(n)))
	}
	return mk(Term{Op: OpConv, Name: "runestr", Args: []*Term{r}, Type: types.Typ[types.String]})
}

func (in *Interp) bufContent(st *State, p *Term) *Term {
	id, path, ok := st.resolve(p)
	if !ok {
		return nil
	}
	o := st.heap[id]
	c, _ := readPath(o.content, o.typ, path)
	if c.Op == OpCall && c.Name == "buffer" {
		return c.Args[0]
	}
	if c.Op == OpStruct && isZeroTerm(c) {
		return tStr("")
	}
	if c.Op == OpSym && strings.HasPrefix(c.Name, "φ") {
		return mk(Term{Op: OpSym, Name: c.Name + ".text", Type: types.Typ[types.String]})
	}
	return nil
}

func isBufType(t types.Type) bool {
	return t.String() == "*bytes.Buffer" || t.String() == "*strings.Builder"
}

func (in *Interp) bufAppend(st *State, p, s *Term) bool {
	b := in.bufContent(st, p)
	if b == nil {
		return false
	}
	id, path, _ := st.resolve(p)
	o := *st.heap[id]
	o.content = writePath(o.content, o.typ, path, mk(Term{Op: OpCall, Name: "buffer", Args: []*Term{tConcat(b, s)}}))
	st.heap[id] = &o
	return true
}

// elem is the character at a position.
func (s *Stream) elem(i int) *Term {
	if e, ok := s.Elems[i]; ok {
		return e
	}
	return mk(Term{Op: OpSym, Name: fmt.Sprintf("%s.%d", s.Epoch, i), Type: types.Typ[types.Rune]})
}

var errType = types.Universe.Lookup("error").Type()

func tEOF() *Term { return mk(Term{Op: OpSym, Name: "io.EOF", Type: errType}) }
func tReadErr() *Term {
	return mk(Term{Op: OpSym, Name: "readError", Type: errType})
}

// kindAt forks on what the element of the input at the current position is.
func (in *Interp) kindAt(st *State, pos int) []*State {
	if st.stream.Kinds[pos] != "" {
		return []*State{st}
	}
	var res []*State
	for _, k := range []string{"rune", "eof", "err"} {
		n := st
		if k != "err" {
			n = st.clone()
		}
		s := n.stream.clone()
		s.Kinds[pos] = k
		s.Touched = true
		n.stream = s
		if k == "rune" {
			n.dom[s.elem(pos)] = allRunes()
		}
		if k == "err" {
			n.assume(tNot(tBin("==", tReadErr(), tNil())))
			n.assume(tNot(tBin("==", tReadErr(), tEOF())))
		}
		res = append(res, n)
	}
	return res
}

func (in *Interp) readRune(st *State) []Outcome {
	var outs []Outcome
	for _, n := range in.kindAt(st, st.stream.Pos) {
		s := n.stream.clone()
		s.Touched = true
		size := tSymT("size", types.Typ[types.Int])
		switch s.Kinds[s.Pos] {
		case "rune":
			r := s.elem(s.Pos)
			s.Pos++
			s.CanUnrd = true
			n.stream = s
			outs = append(outs, ret(n, r, size, tNil())...)
		case "eof":
			s.CanUnrd = false
			n.stream = s
			n.assume(tNot(tBin("==", tEOF(), tNil())))
			outs = append(outs, ret(n, tInt(0), tInt(0), tEOF())...)
		case "err":
			s.CanUnrd = false
			n.stream = s
			outs = append(outs, ret(n, tInt(0), tInt(0), tReadErr())...)
		}
	}
	return outs
}

func hasMethod(t types.Type, names ...string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		for _, n := range names {
			if ms.At(i).Obj().Name() == n {
				return true
			}
		}
	}
	return false
}

// format1 is the text of one operand of fmt.
func (in *Interp) format1(st *State, verb byte, a *Term) *Term {
	a = st.norm(a)
	if a.Op == OpNil {
		return tFmt(string(verb), a)
	}
	plain := a
	if a.Op != OpIface {
		// the type of the value is known
		for _, l := range st.all() {
			if l.Op == OpIsType && l.Args[0] == a && !isIface(l.Typ) {
				a = tIface(l.Typ, tAssert(a, l.Typ))
				break
			}
		}
	}
	if a.Op == OpIface {
		v := a.Args[0]
		if hasMethod(a.Typ, "Error", "String", "Format", "GoString") {
			if (verb == 'v' || verb == 's') && hasMethod(a.Typ, "Error") {
				return tFmt("v", plain)
			}
			return tFmt(string(verb), st.snapshot(plain))
		}
		if b, ok := a.Typ.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsString != 0 && (verb == 'v' || verb == 's'):
				return v
			case b.Info()&types.IsString != 0 && verb == 'q':
				return tFmt("q", v)
			case b.Info()&types.IsInteger != 0 && (verb == 'v' || verb == 'd'):
				return tFmt("dec", v)
			case b.Info()&types.IsInteger != 0 && verb == 'c':
				return runeStr(v)
			case b.Info()&types.IsBoolean != 0 && verb == 'v':
				if bv, ok := v.boolVal(); ok {
					return tStr(fmt.Sprint(bv))
				}
			}
		}
		return tFmt(string(verb), st.snapshot(plain))
	}
	// interface value of unknown type
	return tFmt(string(verb), st.snapshot(plain))
}

func (in *Interp) sprintf(st *State, format, args *Term) *Term {
	f, ok := format.strVal()
	if !ok {
		return nil
	}
	l := args
	if l.Op != OpList || minLen(l) != len(l.Args) {
		return nil
	}
	var parts []*Term
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			parts = append(parts, tStr(f[i:j]))
			i = j - 1
			continue
		}
		i++
		if i >= len(f) {
			return nil
		}
		if f[i] == '%' {
			parts = append(parts, tStr("%"))
			continue
		}
		if k >= len(l.Args) {
			return nil
		}
		switch f[i] {
		case 'v', 's', 'd', 'q', 'c', 'T', 'x', 't', 'w':
			verb := f[i]
			if verb == 'w' {
				verb = 'v'
			}
			parts = append(parts, in.format1(st, verb, l.Args[k].Args[0]))
		case '#', '+':
			if i+1 >= len(f) {
				return nil
			}
			parts = append(parts, tFmt(f[i:i+2], st.snapshot(l.Args[k].Args[0])))
			i++
		default:
			return nil
		}
		k++
	}
	if k != len(l.Args) {
		return nil
	}
	t := tConcat(parts...)
	if t.Type == nil {
		t.Type = types.Typ[types.String]
	}
	return t
}

// sprint is the text of operands: there is a space between two that are no texts, and between all of a line.
func (in *Interp) sprint(st *State, args *Term, line bool) *Term {
	if args.Op != OpList {
		return nil
	}
	var parts []*Term
	text := true
	for i, e := range args.Args {
		if e.Op != OpElem {
			return nil
		}
		a := st.norm(e.Args[0])
		now := false
		if a.Op == OpIface {
			b, ok := a.Typ.Underlying().(*types.Basic)
			now = ok && b.Info()&types.IsString != 0
		} else if !line && len(args.Args) > 1 && a.Op != OpNil {
			return nil
		}
		if i > 0 && (line || !now && !text) {
			parts = append(parts, tStr(" "))
		}
		parts = append(parts, in.format1(st, 'v', a))
		text = now
	}
	if line {
		parts = append(parts, tStr("\n"))
	}
	if len(parts) == 0 {
		return nil
	}
	t := tConcat(parts...)
	if t.Type == nil {
		t.Type = types.Typ[types.String]
	}
	return t
}

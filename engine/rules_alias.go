package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Results of parsing share nothing (C11).

func init() {
	register("results", "C11", "Effect and aliasing analysis: functions reachable from ParseString, ParseStream and ParseFile use no package-level variable that anything outside initialisation changes or that hands out references, start no goroutine, and each call makes its own lexer and parser; the terms of the semantic actions hold no address of the parser's stack, no part of a slice, and use each reference they are given once; actions store nothing into what they are given.", runAlias)
}

// reachable lists the functions of the repository that can be called from the roots.
func (p *Program) reachable(roots ...*ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var list []*ssa.Function
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && p.inRepo(f) && len(f.Blocks) > 0 {
			seen[f] = true
			list = append(list, f)
			work = append(work, f)
		}
	}
	for _, f := range roots {
		add(f)
	}
	var buf []*ssa.Value
	// methods of types that are converted to interfaces of the standard library can be called from there
	iface := func(t types.Type) {
		ms := p.Prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if f := p.Prog.MethodValue(ms.At(i)); f != nil {
				if f.Synthetic != "" {
					if o, ok := ms.At(i).Obj().(*types.Func); ok {
						add(p.Prog.FuncValue(o))
					}
				}
				add(f)
			}
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, o := range i.Operands(buf[:0]) {
					if g, ok := (*o).(*ssa.Function); ok {
						add(g)
					}
				}
				if m, ok := i.(*ssa.MakeInterface); ok {
					if _, n := types.Unalias(m.X.Type()).(*types.Named); n || isPtr(m.X.Type()) {
						iface(m.X.Type())
					}
				}
				if c, ok := i.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					fs, _ := p.implementations(c.Common().Method)
					for _, g := range fs {
						add(g)
					}
				}
			}
		}
	}
	sort.Slice(list, func(i, j int) bool { return list[i].String() < list[j].String() })
	return list
}

// immutable tells references to what never changes.
func immutable(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if n, ok := types.Unalias(p.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil {
			switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
			case "regexp.Regexp", "strings.Replacer", "unicode.RangeTable":
				return true
			}
		}
	}
	return false
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

// hasRefs tells types values of which refer to storage that can be shared.
func hasRefs(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] || immutable(t) {
		return false
	}
	seen[t] = true
	switch x := t.Underlying().(type) {
	case *types.Basic:
		return x.Kind() == types.UnsafePointer
	case *types.Array:
		return hasRefs(x.Elem(), seen)
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if hasRefs(x.Field(i).Type(), seen) {
				return true
			}
		}
		return false
	}
	return true
}

func runAlias(pr *Program, r *Report) {
	const P = "C11"
	var roots []*ssa.Function
	for _, n := range []string{"ParseString", "ParseStream", "ParseFile"} {
		f := pr.pkg("").Func(n)
		if r.check(P, "entry", n, "exists", token.NoPos, f != nil, "function was not found") {
			roots = append(roots, f)
		}
	}
	errType := types.Universe.Lookup("error").Type()
	for _, f := range pr.reachable(roots...) {
		r.used(P, f, 1)
		globals := map[*ssa.Global]string{}
		bad := ""
		var pos token.Pos
		note := func(g *ssa.Global, i ssa.Instruction, why string) {
			if globals[g] == "" {
				globals[g] = why
				if why != "" {
					pos = i.Pos()
				}
			}
		}
		var buf []*ssa.Value
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Go:
					bad = "starts a goroutine"
					pos = x.Pos()
				case *ssa.Select, *ssa.Send:
					bad = "communicates with other goroutines"
					pos = i.Pos()
				}
				if why := impureCall(pr, i, parseCalls); why != "" && bad == "" {
					bad = why
					pos = i.Pos()
				}
				if isInit(f) {
					continue
				}
				for _, o := range i.Operands(buf[:0]) {
					g, ok := (*o).(*ssa.Global)
					if !ok {
						continue
					}
					if g.Pkg == nil || !pr.repo[g.Pkg] {
						if _, ld := i.(*ssa.UnOp); ld && types.Identical(deref(g.Type()), errType) {
							note(g, i, "") // io.EOF
						} else {
							note(g, i, "variable of another package is used")
						}
						continue
					}
					if ws := pr.gwrites[g]; len(ws) > 0 {
						note(g, i, "it is changed, or what it refers to is handed out, at "+r.pos(ws[0].Pos()))
						continue
					}
					switch x := i.(type) {
					case *ssa.UnOp:
						if t := x.Type(); hasRefs(t, map[types.Type]bool{}) && !refOnlyRead(x) && !types.Identical(t, errType) {
							note(g, i, "a value that refers to shared storage is taken from it")
							continue
						}
					case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
						if v, ok := i.(ssa.Value); ok && !addrOnlyRead(v) {
							note(g, i, "its address is handed on")
							continue
						}
					default:
						note(g, i, "its address is handed on")
						continue
					}
					note(g, i, "")
				}
			}
		}
		r.check(P, "own input only", shortFn(f), "no goroutines, no other sources", pos, bad == "", "%s", bad)
		var gs []*ssa.Global
		for g := range globals {
			gs = append(gs, g)
		}
		sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
		for _, g := range gs {
			r.check(P, "global", shortFn(f), g.Name(), pos, globals[g] == "", "parsing depends on the variable %s: %s", g.Name(), globals[g])
		}
	}
	initPurity(pr, r, P)
	runAliasActions(pr, r)
}

// parseCalls are functions of impure packages that parsing may use: those that give it its input.
var parseCalls = map[string]bool{"os.Open": true, "os.OpenFile": true, "os.ReadFile": true, "io/ioutil.ReadFile": true, "io/ioutil.ReadAll": true, "(*os.File).Close": true, "(*os.File).Read": true}

// impureCall: the call is of a library function the result of which may depend on more than its arguments.
func impureCall(pr *Program, i ssa.Instruction, allowed map[string]bool) string {
	c, ok := i.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	h := c.Common().StaticCallee()
	if h == nil || h.Pkg == nil || pr.ours(h) || harmless[h.Pkg.Pkg.Path()] || h.Pkg.Pkg.Path() == "unicode" || allowed[h.String()] {
		return ""
	}
	return "calls " + h.String()
}

// initCalls are packages that may be used when variables are initialised.
var initCalls = map[string]bool{"regexp": true, "sync": true, "sync/atomic": true, "reflect": true, "encoding/asn1": true, "text/template": true}

// initPurity: variables of the library are initialised by what does not depend on the environment.
func initPurity(pr *Program, r *Report, props string) {
	f := pr.pkg("").Func("init")
	if !r.check(props, "initialisation", "package", "exists", token.NoPos, f != nil, "no initialisation was found") {
		return
	}
	bad, n := "", 0
	pos := token.NoPos
	for _, g := range pr.reachable(f) {
		n++
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if h := c.Common().StaticCallee(); h != nil && h.Pkg != nil && (initCalls[h.Pkg.Pkg.Path()] || h.Name() == "init" && h.Signature.Recv() == nil) {
						continue
					}
				}
				why := impureCall(pr, i, nil)
				if _, ok := i.(*ssa.Go); ok {
					why = "starts a goroutine"
				}
				if u, ok := i.(*ssa.UnOp); ok {
					if gl, ok := u.X.(*ssa.Global); ok && gl.Pkg != nil && gl.Pkg.Pkg.Path() == "os" && !strings.HasPrefix(gl.Name(), "Err") {
						why = "uses os." + gl.Name()
					}
				}
				if why != "" && bad == "" {
					bad, pos = shortFn(g)+" "+why, i.Pos()
				}
			}
		}
	}
	r.check(props, "initialisation", "package", "depends on nothing", pos, bad == "" && n > 0, "variables are initialised from the environment: %s", bad)
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// refOnlyRead tells that a map or slice taken from a variable is only looked into, and only plain values are taken out.
func refOnlyRead(v ssa.Value) bool {
	for _, i := range *v.Referrers() {
		switch x := i.(type) {
		case *ssa.DebugRef, *ssa.Return:
			if _, ok := i.(*ssa.Return); ok {
				return false
			}
		case *ssa.Lookup:
			t := x.X.Type().Underlying()
			m, ok := t.(*types.Map)
			if x.X != v || !ok || hasRefs(m.Elem(), map[types.Type]bool{}) {
				return false
			}
		case *ssa.IndexAddr:
			if !addrOnlyRead(x) {
				return false
			}
		case *ssa.Range:
			for _, j := range *x.Referrers() {
				n, ok := j.(*ssa.Next)
				if !ok {
					return false
				}
				if tp, ok := n.Type().(*types.Tuple); ok {
					for k := 0; k < tp.Len(); k++ {
						if t := tp.At(k).Type(); t != types.Typ[types.Invalid] && hasRefs(t, map[types.Type]bool{}) {
							return false
						}
					}
				}
			}
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" && b.Name() != "cap" {
				return false
			}
		case *ssa.BinOp:
		default:
			return false
		}
	}
	return true
}

// addrOnlyRead tells that an address is only used to load plain values.
func addrOnlyRead(v ssa.Value) bool {
	for _, i := range *v.Referrers() {
		switch x := i.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if hasRefs(x.Type(), map[types.Type]bool{}) && !refOnlyRead(x) {
				return false
			}
		case *ssa.FieldAddr:
			if !addrOnlyRead(x) {
				return false
			}
		case *ssa.IndexAddr:
			if x.X != v || !addrOnlyRead(x) {
				return false
			}
		case *ssa.Slice:
			if !refOnlyRead(x) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func runAliasActions(pr *Program, r *Report) {
	const P = "C11"
	m := gramModelOf(pr)
	if m.err != nil {
		r.check(P, "action", "asn1.y", "understood", token.NoPos, false, "the grammar or the parser can not be analysed: %v", m.err)
		return
	}
	for _, p := range m.g.Productions {
		a := m.acts[p.No]
		name := ruleText(p.Left, p.Right)
		pos := token.NoPos
		if a.block != nil {
			for _, i := range a.block.Instrs {
				if i.Pos().IsValid() {
					pos = i.Pos()
					break
				}
			}
		}
		if !r.check(P, "action", p.Left, name, pos, a.err == nil, "the action can not be analysed: %v", a.err) {
			continue
		}
		why := ""
		for k := range a.outs {
			o := &a.outs[k]
			if o.o.Kind != "stop" {
				continue
			}
			if es := effects(o.o.St.events); len(es) > 0 {
				why = "it has effects: " + eventStrings(es)
			}
			v := o.lexer
			if p.Types[0] != "" {
				if f := o.fieldOf(p.Types[0], m.d.symType); f != nil {
					v = tTuple(f, o.lexer)
				}
			}
			if w := m.aliases(v); w != "" {
				why = w
			}
		}
		r.check(P, "alias", p.Left, name, pos, why == "", "%s", why)
	}
}

// aliases tells how a value computed by an action shares storage.
func (m *gramModel) aliases(v *Term) string {
	why := ""
	uses := map[string]int{}
	var walk func(t *Term)
	walk = func(t *Term) {
		switch t.Op {
		case OpFieldA, OpIndexA:
			why = fmt.Sprintf("the value keeps an address of the parser's stack: %s", t)
			return
		case OpSliceX:
			why = fmt.Sprintf("the value is a part of a slice that something else holds: %s", t)
			return
		case OpGlobal:
			why = fmt.Sprintf("the value refers to the variable %s", t.Name)
			return
		case OpField, OpSym, OpAssert:
			if path, typ := pathOf(t); path != "" {
				if strings.HasPrefix(path, "$") && (typ == nil || hasRefs(typ, map[types.Type]bool{})) {
					uses[path]++
				}
				return
			}
		case OpIsType, OpLen:
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(v)
	if why != "" {
		return why
	}
	var paths []string
	for p := range uses {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		if uses[p] > 1 {
			return fmt.Sprintf("%s is used in more than one part of the value", p)
		}
		for _, q := range paths {
			if p != q && strings.HasPrefix(q, p+".") {
				return fmt.Sprintf("%s and %s are used in different parts of the value", p, q)
			}
		}
	}
	return ""
}

// pathOf is the way from a symbol to a part of it.
func pathOf(t *Term) (string, types.Type) {
	switch t.Op {
	case OpSym:
		return t.Name, t.Type
	case OpField:
		if p, _ := pathOf(t.Args[0]); p != "" {
			return p + "." + t.Name, t.Type
		}
	case OpAssert:
		if p, _ := pathOf(t.Args[0]); p != "" {
			return p, t.Type
		}
	}
	return "", nil
}

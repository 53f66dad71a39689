package main

import (
	"strings"
	"unicode/utf8"

	"go/constant"
	"go/token"
	"go/types"
)

// Simplifying constructors. They bring equal computations to equal terms.

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func fieldIndex(t types.Type, name string) int {
	s := structOf(t)
	if s == nil {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func tField(s *Term, name string, ft types.Type) *Term {
	if s.Op == OpStruct {
		if i := fieldIndex(s.Typ, name); i >= 0 {
			return s.Args[i]
		}
	}
	return mk(Term{Op: OpField, Name: name, Args: []*Term{s}, Type: ft})
}

// explode turns a struct value into its fields.
func explode(s *Term, typ types.Type) *Term {
	if s.Op == OpStruct {
		return s
	}
	st := structOf(typ)
	args := make([]*Term, st.NumFields())
	for i := range args {
		args[i] = tField(s, st.Field(i).Name(), st.Field(i).Type())
	}
	return mk(Term{Op: OpStruct, Typ: typ, Args: args, Type: typ})
}

func tStruct(typ types.Type, args []*Term) *Term {
	st := structOf(typ)
	if st != nil && len(args) > 0 && st.NumFields() == len(args) {
		var base *Term
		same := true
		for i, a := range args {
			if a.Op != OpField || a.Name != st.Field(i).Name() || (base != nil && a.Args[0] != base) {
				same = false
				break
			}
			base = a.Args[0]
		}
		if same && base.Type != nil && types.Identical(base.Type, typ) {
			return base
		}
	}
	return mk(Term{Op: OpStruct, Typ: typ, Args: args, Type: typ})
}

func setField(s *Term, typ types.Type, name string, v *Term) *Term {
	e := explode(s, typ)
	i := fieldIndex(typ, name)
	if i < 0 {
		return s
	}
	args := append([]*Term{}, e.Args...)
	args[i] = v
	return tStruct(e.Typ, args)
}

func zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = zero(u.Field(i).Type())
		}
		return mk(Term{Op: OpStruct, Typ: t, Args: args, Type: t})
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return tStr("")
		case u.Info()&types.IsBoolean != 0:
			return tBool(false)
		case u.Info()&types.IsInteger != 0:
			return tInt(0)
		case u.Info()&types.IsNumeric != 0:
			return tConst(constant.MakeFloat64(0), t)
		}
		return tNil()
	case *types.Slice:
		return tList()
	case *types.Array:
		if u.Len() <= 64 {
			args := make([]*Term, u.Len())
			for i := range args {
				args[i] = zero(u.Elem())
			}
			return mk(Term{Op: OpArray, Args: args, Type: t})
		}
		return tCall("zeroarray")
	}
	return tNil()
}

func tElem(x *Term) *Term { return mk(Term{Op: OpElem, Args: []*Term{x}}) }
func tSpread(x *Term) *Term {
	return mk(Term{Op: OpSpread, Args: []*Term{x}})
}

func tList(segs ...*Term) *Term {
	var out []*Term
	for _, s := range segs {
		if s.Op == OpSpread {
			in := s.Args[0]
			if in.Op == OpNil {
				continue
			}
			if in.Op == OpList {
				out = append(out, in.Args...)
				continue
			}
			if in.Op == OpArray {
				for _, a := range in.Args {
					out = append(out, tElem(a))
				}
				continue
			}
		}
		out = append(out, s)
	}
	if len(out) == 1 && out[0].Op == OpSpread && out[0].Args[0].Op != OpFlatMap {
		// a copy of a list has the same elements
		return out[0].Args[0]
	}
	return mk(Term{Op: OpList, Args: out})
}

// segs returns the segments of any slice value.
func segs(l *Term) []*Term {
	switch l.Op {
	case OpList:
		return l.Args
	case OpNil:
		return nil
	}
	return []*Term{tSpread(l)}
}

func tAppend(a, b *Term) *Term {
	var out []*Term
	out = append(out, segs(a)...)
	out = append(out, segs(b)...)
	return tList(out...)
}

func tLen(x *Term) *Term {
	switch x.Op {
	case OpNil:
		return tInt(0)
	case OpConst:
		if s, ok := x.strVal(); ok {
			return tInt(int64(len(s)))
		}
	case OpArray:
		return tInt(int64(len(x.Args)))
	case OpList:
		n := int64(0)
		all := true
		for _, a := range x.Args {
			if a.Op != OpElem {
				all = false
				break
			}
			n++
		}
		if all {
			return tInt(n)
		}
	case OpMap:
		if x.Name == "known" {
			return tInt(int64(len(x.Args) / 2))
		}
	}
	return mk(Term{Op: OpLen, Args: []*Term{x}})
}

func tIndex(x, i *Term) *Term {
	if n, ok := i.intVal(); ok {
		switch x.Op {
		case OpArray:
			if n >= 0 && int(n) < len(x.Args) {
				return x.Args[n]
			}
		case OpList:
			ok := n >= 0 && int(n) < len(x.Args)
			for k := 0; ok && k <= int(n); k++ {
				if x.Args[k].Op != OpElem {
					ok = false
				}
			}
			if ok {
				return x.Args[n].Args[0]
			}
		case OpConst:
			if s, ok := x.strVal(); ok && n >= 0 && int(n) < len(s) {
				return tInt(int64(s[n]))
			}
		}
	}
	// first and last part of what is put together
	switch x.Op {
	case OpList:
		if n := len(x.Args); n > 0 && x.Args[n-1].Op == OpElem && i == tBin("+", tLen(x), tInt(-1)) {
			return x.Args[n-1].Args[0]
		}
	case OpConcat, OpConv:
		sg := []*Term{x}
		if x.Op == OpConcat {
			sg = x.Args
		}
		l := sg[len(sg)-1]
		if l.Op == OpConv && l.Name == "runestr" && i == tBin("+", tLen(x), tInt(-1)) {
			return mk(Term{Op: OpCall, Name: "lastbyte", Args: []*Term{l.Args[0]}, Type: types.Typ[types.Byte]})
		}
		if n, ok := i.intVal(); ok && n == 0 && sg[0].Op == OpConv && sg[0].Name == "runestr" {
			return mk(Term{Op: OpCall, Name: "firstbyte", Args: []*Term{sg[0].Args[0]}, Type: types.Typ[types.Byte]})
		}
	}
	return mk(Term{Op: OpIndex, Args: []*Term{x, i}})
}

func tIface(typ types.Type, v *Term) *Term {
	return mk(Term{Op: OpIface, Typ: typ, Args: []*Term{v}})
}

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func tAssert(x *Term, typ types.Type) *Term {
	if isIface(typ) {
		return x
	}
	if x.Op == OpIface && types.Identical(x.Typ, typ) {
		return x.Args[0]
	}
	return mk(Term{Op: OpAssert, Typ: typ, Args: []*Term{x}, Type: typ})
}

func tIsType(x *Term, typ types.Type) *Term {
	switch x.Op {
	case OpNil:
		return tBool(false)
	case OpIface:
		if it, ok := typ.Underlying().(*types.Interface); ok {
			return tBool(types.Implements(x.Typ, it))
		}
		return tBool(types.Identical(x.Typ, typ))
	}
	return mk(Term{Op: OpIsType, Typ: typ, Args: []*Term{x}})
}

// tMkIface converts a concrete value to an interface; re-boxing what was unboxed gives the original.
func tMkIface(typ types.Type, v *Term) *Term {
	if v.Op == OpAssert && types.Identical(v.Typ, typ) {
		return v.Args[0]
	}
	return tIface(typ, v)
}

func tRes(x *Term, name string) *Term {
	if x.Op == OpTuple {
		i := int(name[0] - '0')
		if i < len(x.Args) {
			return x.Args[i]
		}
	}
	return mk(Term{Op: OpRes, Name: name, Args: []*Term{x}})
}

func tConcat(parts ...*Term) *Term {
	var out []*Term
	var add func(p *Term)
	add = func(p *Term) {
		if p.Op == OpConcat {
			for _, a := range p.Args {
				add(a)
			}
			return
		}
		if s, ok := p.strVal(); ok {
			if s == "" {
				return
			}
			if n := len(out); n > 0 {
				if l, ok := out[n-1].strVal(); ok {
					out[n-1] = tStr(l + s)
					return
				}
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		add(p)
	}
	switch len(out) {
	case 0:
		return tStr("")
	case 1:
		return out[0]
	}
	return mk(Term{Op: OpConcat, Args: out})
}

func minLen(x *Term) int {
	switch x.Op {
	case OpConst:
		if s, ok := x.strVal(); ok {
			return len(s)
		}
	case OpConcat:
		n := 0
		for _, a := range x.Args {
			n += minLen(a)
		}
		return n
	case OpList:
		n := 0
		for _, a := range x.Args {
			if a.Op == OpElem {
				n++
			}
		}
		return n
	case OpFmt:
		if x.Name == "dec" {
			return 1
		}
	case OpConv:
		if x.Name == "runestr" {
			return 1
		}
	}
	return 0
}

func tBin(op string, a, b *Term) *Term {
	switch op {
	case "!=":
		return tNot(tBin("==", a, b))
	case ">":
		return tBin("<", b, a)
	case "<=":
		return tNot(tBin("<", b, a))
	case ">=":
		return tNot(tBin("<", a, b))
	case "-":
		if n, ok := b.intVal(); ok {
			return tBin("+", a, tInt(-n))
		}
	}
	if a.Op == OpConst && b.Op == OpConst {
		if r := foldBin(op, a.Val, b.Val); r != nil {
			return r
		}
	}
	switch op {
	case "+":
		if a.Op == OpConst && b.Op != OpConst && a.Val.Kind() != constant.String {
			a, b = b, a
		}
		if isStringy(a) || isStringy(b) {
			return tConcat(a, b)
		}
		if n, ok := b.intVal(); ok {
			if n == 0 {
				return a
			}
			if a.Op == OpBin && a.Name == "+" {
				if m, ok := a.Args[1].intVal(); ok {
					return tBin("+", a.Args[0], tInt(n+m))
				}
			}
		}
	case "==":
		if a == b && !mayBeNaN(a) {
			return tBool(true)
		}
		if a.Op == OpConst || a.Op == OpNil || (b.Op != OpConst && b.Op != OpNil && a.id > b.id) {
			a, b = b, a
		}
		if v, ok := b.boolVal(); ok {
			if v {
				return a
			}
			return tNot(a)
		}
		if s, ok := b.strVal(); ok {
			if s == "" {
				return tBin("==", tLen(a), tInt(0))
			}
			if minLen(a) > len(s) {
				return tBool(false)
			}
			// part of a character is no text
			if utf8.ValidString(s) {
				for _, x := range append([]*Term{a}, a.Args...) {
					if x.Op == OpCall && x.Name == "notext" && (x == a || a.Op == OpConcat) {
						return tBool(false)
					}
				}
			}
			if rs, ok := runesOf(a); ok && !strings.ContainsRune(s, utf8.RuneError) {
				ws := []rune(s)
				if len(rs) != len(ws) {
					return tBool(false)
				}
				var cs []*Term
				for i, w := range ws {
					cs = append(cs, tBin("==", rs[i], tInt(int64(w))))
				}
				return tAll(cs...)
			}
		}
		// texts that begin and end with the same parts
		if a.Op == OpConcat || b.Op == OpConcat {
			if x, y, ok := commonParts(a, b); ok {
				return tBin("==", x, y)
			}
		}
		if b.Op == OpNil {
			switch a.Op {
			case OpObj, OpIface, OpPtr, OpFieldA, OpIndexA, OpClosure, OpFunc, OpStruct, OpMap:
				return tBool(false)
			case OpCall:
				if a.Name == "fmt.Errorf" || a.Name == "errors.New" {
					return tBool(false)
				}
			case OpSym:
				// errors that packages of the standard library declare
				if n := strings.TrimPrefix(a.Name, "global:"); n != a.Name && !strings.HasPrefix(n, "github.com/chemikadze/asn1go") {
					if v := n[strings.LastIndex(n, ".")+1:]; n == "io.EOF" || strings.HasPrefix(v, "Err") {
						return tBool(false)
					}
				}
			case OpList:
				if minLen(a) > 0 {
					return tBool(false)
				}
				return tBin("==", tLen(a), tInt(0))
			}
		}
		if n, ok := b.intVal(); ok {
			if a.Op == OpLen {
				if n < int64(minLen(a.Args[0])) {
					return tBool(false)
				}
			}
			if a.Op == OpBin && a.Name == "+" {
				if m, ok := a.Args[1].intVal(); ok {
					return tBin("==", a.Args[0], tInt(n-m))
				}
			}
		}
		if a.Op == OpIface && b.Op == OpIface {
			if !types.Identical(a.Typ, b.Typ) {
				return tBool(false)
			}
			return tBin("==", a.Args[0], b.Args[0])
		}
		if a.Op == OpObj && b.Op == OpObj {
			return tBool(false)
		}
	case "<":
		if a == b {
			return tBool(false)
		}
		// lengths are not negative
		if n, ok := b.intVal(); ok && a.Op == OpLen {
			if n <= int64(minLen(a.Args[0])) {
				return tBool(false)
			}
			if n == 1 {
				return tBin("==", a, tInt(0))
			}
		}
		if n, ok := a.intVal(); ok && b.Op == OpLen {
			if n < int64(minLen(b.Args[0])) {
				return tBool(true)
			}
			if n == 0 {
				return tNot(tBin("==", b, tInt(0)))
			}
		}
		// x + m < x + n
		if x, m := plusConst(a); x != nil {
			if y, n := plusConst(b); x == y {
				return tBool(m < n)
			}
		}
		// x + n < c
		if n, ok := b.intVal(); ok && a.Op == OpBin && a.Name == "+" {
			if m, ok := a.Args[1].intVal(); ok {
				return tBin("<", a.Args[0], tInt(n-m))
			}
		}
		if n, ok := a.intVal(); ok && b.Op == OpBin && b.Name == "+" {
			if m, ok := b.Args[1].intVal(); ok {
				return tBin("<", tInt(n-m), b.Args[0])
			}
		}
		// c < x is !(x < c+1)
		if n, ok := a.intVal(); ok {
			return tNot(tBin("<", b, tInt(n+1)))
		}
	}
	return mk(Term{Op: OpBin, Name: op, Args: []*Term{a, b}})
}

// commonParts takes off what two texts begin and end with.
func commonParts(a, b *Term) (x, y *Term, ok bool) {
	parts := func(t *Term) []*Term {
		if t.Op == OpConcat {
			return t.Args
		}
		return []*Term{t}
	}
	p, q := parts(a), parts(b)
	n := len(p)
	for len(p) > 0 && len(q) > 0 && p[0] == q[0] {
		p, q = p[1:], q[1:]
	}
	for len(p) > 0 && len(q) > 0 && p[len(p)-1] == q[len(q)-1] {
		p, q = p[:len(p)-1], q[:len(q)-1]
	}
	if len(p) == n {
		return nil, nil, false
	}
	return tConcat(p...), tConcat(q...), true
}

func isStringy(t *Term) bool {
	if t.Op == OpConcat || (t.Op == OpConst && t.Val.Kind() == constant.String) || t.Op == OpFmt {
		return true
	}
	if t.Type != nil {
		if b, ok := t.Type.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return true
		}
	}
	return false
}

func mayBeNaN(t *Term) bool {
	if t.Type != nil {
		if b, ok := t.Type.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return true
		}
	}
	return false
}

var tokOf = map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL, "/": token.QUO, "%": token.REM, "&": token.AND, "|": token.OR,
	"^": token.XOR, "&^": token.AND_NOT, "<<": token.SHL, ">>": token.SHR, "==": token.EQL, "<": token.LSS}

func foldBin(op string, a, b constant.Value) *Term {
	defer func() { recover() }()
	tk := tokOf[op]
	switch tk {
	case token.EQL, token.LSS:
		if (a.Kind() == constant.String) != (b.Kind() == constant.String) {
			return nil
		}
		return tBool(constant.Compare(a, tk, b))
	case token.SHL, token.SHR:
		n, ok := constant.Uint64Val(b)
		if !ok || n > 64 {
			return nil
		}
		return tConst(constant.Shift(a, tk, uint(n)), nil)
	case token.QUO:
		if a.Kind() == constant.Int && b.Kind() == constant.Int {
			tk = token.QUO_ASSIGN
		}
	}
	if (tk == token.QUO_ASSIGN || tk == token.REM || tk == token.QUO) && constant.Sign(b) == 0 {
		return nil
	}
	r := constant.BinaryOp(a, tk, b)
	if r.Kind() == constant.Unknown {
		return nil
	}
	if r.Kind() == constant.Int {
		if _, ok := constant.Int64Val(r); !ok {
			return nil
		}
	}
	return tConst(r, nil)
}

func tUn(op string, a *Term) *Term {
	switch op {
	case "!":
		return tNot(a)
	case "-":
		if a.Op == OpConst && (a.Val.Kind() == constant.Int || a.Val.Kind() == constant.Float) {
			return tConst(constant.UnaryOp(token.SUB, a.Val, 0), nil)
		}
		if a.Op == OpUn && a.Name == "-" {
			return a.Args[0]
		}
	}
	return mk(Term{Op: OpUn, Name: op, Args: []*Term{a}})
}

// tFmt is a formatted value. Verbs: "dec" decimal integer, "v" default format, "q", ...
func tFmt(verb string, x *Term) *Term {
	if verb == "dec" {
		if n, ok := x.intVal(); ok {
			return tStr(constant.MakeInt64(n).String())
		}
	}
	return mk(Term{Op: OpFmt, Name: verb, Args: []*Term{x}})
}

// plusConst takes x + n apart.
func plusConst(t *Term) (x *Term, n int64) {
	if t.Op == OpConst {
		return nil, 0
	}
	if t.Op == OpBin && t.Name == "+" && len(t.Args) == 2 {
		if m, ok := t.Args[1].intVal(); ok {
			return t.Args[0], m
		}
	}
	return t, 0
}

package main

import (
	"encoding/binary"
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a value of the abstract domain: a canonical, hash-consed description of how a value is computed
// (value numbering). Two terms are equal if and only if they are the same pointer.
type Term struct {
	Op   Op
	Name string     // symbol, field, function, operator, ...
	Typ  types.Type // concrete type for OpIface, OpAssert, OpStruct, OpConv, OpIsType
	Val  constant.Value
	Args []*Term
	Fn   *ssa.Function
	Obj  int // for OpObj

	id   int
	dyn  *domSyms
	text string
	Type types.Type // static type when known, not part of the identity
}

type Op int

const (
	OpBad Op = iota
	OpConst
	OpNil
	OpSym     // Name: unknown
	OpField   // Name: field of struct value Args[0]
	OpStruct  // Typ, Args: one per field
	OpIface   // Typ: dynamic type, Args[0]: value
	OpAssert  // Typ: value of interface Args[0] asserted to be Typ
	OpIsType  // Typ: bool
	OpObj     // pointer to heap object Obj
	OpFieldA  // address of field Name of struct at Args[0]
	OpIndexA  // address of element Args[1] of array or slice at Args[0]
	OpDeref   // initial content of memory at pointer Args[0]
	OpList    // slice value, Args are OpElem or OpSpread
	OpElem    // single element of OpList
	OpSpread  // all elements of Args[0] in OpList
	OpFlatMap // list made by a loop over Args[0]; cases follow as OpCase
	OpCase    // Args[0]: OpAnd of guards, Args[1]: list
	OpAnd     // conjunction of literals
	OpNot
	OpBound  // bound variable of a FlatMap
	OpConcat // string concatenation
	OpCall   // Name: pure function or opaque call
	OpTuple
	OpRes   // Name: index of tuple result Args[0]
	OpBin   // Name: operator
	OpUn    // Name: operator
	OpLen   //
	OpIndex // Args[0][Args[1]]
	OpSliceX
	OpConv    // Typ
	OpClosure // Fn, Args: bindings
	OpFunc    // Fn
	OpMap     // map literal: Args key, value, key, value; Name "known" or content
	OpLookup  // Args[0][Args[1]]
	OpLookupOk
	OpArray // array value: Args elements
	OpPtr   // pointer to a value snapshot: &Args[0]  (results only)
	OpGlobal
	OpFmt // formatted value: Name verb, Args[0]
	OpWith
)

var termTab = map[string]*Term{}

func typeKey(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, nil)
}

var mkBuf []byte
var typeIDs = map[types.Type]int{}
var typeKeys = map[string]int{}
var fnIDs = map[interface{}]int{}

// typeID numbers types by what they are.
func typeID(t types.Type) int {
	if n, ok := typeIDs[t]; ok {
		return n
	}
	k := typeKey(t)
	n, ok := typeKeys[k]
	if !ok {
		n = len(typeKeys) + 1
		typeKeys[k] = n
	}
	typeIDs[t] = n
	return n
}

func mk(t Term) *Term {
	b := mkBuf[:0]
	b = binary.AppendUvarint(b, uint64(t.Op))
	b = binary.AppendUvarint(b, uint64(len(t.Name)))
	b = append(b, t.Name...)
	n := 0
	if t.Typ != nil {
		n = typeID(t.Typ)
	}
	b = binary.AppendUvarint(b, uint64(n))
	b = binary.AppendVarint(b, int64(t.Obj))
	b = binary.AppendUvarint(b, uint64(len(t.Args)))
	for _, a := range t.Args {
		b = binary.AppendUvarint(b, uint64(a.id))
	}
	if t.Val != nil {
		b = append(b, 'V', byte(t.Val.Kind()))
		if v, ok := constant.Int64Val(constant.ToInt(t.Val)); ok && t.Val.Kind() == constant.Int {
			b = binary.AppendVarint(b, v)
		} else {
			x := t.Val.ExactString()
			b = binary.AppendUvarint(b, uint64(len(x)))
			b = append(b, x...)
		}
	}
	if t.Fn != nil {
		id, ok := fnIDs[t.Fn]
		if !ok {
			id = len(fnIDs) + 1
			fnIDs[t.Fn] = id
		}
		b = append(b, 'F')
		b = binary.AppendUvarint(b, uint64(id))
	}
	mkBuf = b
	if x, ok := termTab[string(b)]; ok {
		if x.Type == nil {
			x.Type = t.Type
		}
		return x
	}
	x := &t
	x.id = len(termTab) + 1
	x.dyn = symsOf(x)
	termTab[string(b)] = x
	return x
}

// domSyms is the set of free symbols of a term, capped.
type domSyms struct {
	syms []*Term
	many bool
}

func symsOf(t *Term) *domSyms {
	switch t.Op {
	case OpSym:
		return &domSyms{syms: []*Term{t}}
	}
	res := &domSyms{}
	for _, a := range t.Args {
		if a.dyn == nil {
			continue
		}
		if a.dyn.many {
			res.many = true
			return res
		}
	next:
		for _, s := range a.dyn.syms {
			for _, o := range res.syms {
				if o == s {
					continue next
				}
			}
			res.syms = append(res.syms, s)
			if len(res.syms) > 6 {
				return &domSyms{many: true}
			}
		}
	}
	return res
}

func tConst(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return tNil()
	}
	return mk(Term{Op: OpConst, Val: v, Type: typ})
}
func tInt(i int64) *Term     { return mk(Term{Op: OpConst, Val: constant.MakeInt64(i)}) }
func tStr(s string) *Term    { return mk(Term{Op: OpConst, Val: constant.MakeString(s)}) }
func tBool(b bool) *Term     { return mk(Term{Op: OpConst, Val: constant.MakeBool(b)}) }
func tNil() *Term            { return mk(Term{Op: OpNil}) }
func tSym(name string) *Term { return mk(Term{Op: OpSym, Name: name}) }
func tSymT(name string, typ types.Type) *Term {
	defer func() { symByName[name] = mk(Term{Op: OpSym, Name: name, Type: typ}) }()
	return mk(Term{Op: OpSym, Name: name, Type: typ})
}
func tObj(id int) *Term { return mk(Term{Op: OpObj, Obj: id}) }
func tTuple(args ...*Term) *Term {
	return mk(Term{Op: OpTuple, Args: args})
}
func tCall(name string, args ...*Term) *Term { return mk(Term{Op: OpCall, Name: name, Args: args}) }
func tNot(t *Term) *Term {
	if t.Op == OpNot {
		return t.Args[0]
	}
	if b, ok := t.boolVal(); ok {
		return tBool(!b)
	}
	return mk(Term{Op: OpNot, Args: []*Term{t}})
}

func (t *Term) boolVal() (bool, bool) {
	if t.Op == OpConst && t.Val.Kind() == constant.Bool {
		return constant.BoolVal(t.Val), true
	}
	return false, false
}
func (t *Term) strVal() (string, bool) {
	if t.Op == OpConst && t.Val.Kind() == constant.String {
		return constant.StringVal(t.Val), true
	}
	return "", false
}
func (t *Term) intVal() (int64, bool) {
	if t.Op == OpConst && t.Val.Kind() == constant.Int {
		return constant.Int64Val(t.Val)
	}
	return 0, false
}
func (t *Term) isConst() bool { return t.Op == OpConst }
func (t *Term) isNil() bool   { return t.Op == OpNil }

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// String renders a term for reports and for comparison with the specification tables.
func (t *Term) String() string {
	if t == nil {
		return "<none>"
	}
	if t.text == "" {
		t.text = t.render()
	}
	return t.text
}

func (t *Term) render() string {
	args := func() string {
		var xs []string
		for _, a := range t.Args {
			xs = append(xs, a.String())
		}
		return strings.Join(xs, ", ")
	}
	switch t.Op {
	case OpConst:
		if t.Val.Kind() == constant.String {
			return t.Val.ExactString()
		}
		return t.Val.String()
	case OpNil:
		return "nil"
	case OpSym, OpGlobal, OpBound:
		return t.Name
	case OpField:
		return t.Args[0].String() + "." + t.Name
	case OpStruct:
		n, ok := t.Typ.Underlying().(*types.Struct)
		var xs []string
		for i, a := range t.Args {
			if isZeroTerm(a) {
				continue
			}
			f := fmt.Sprint(i)
			if ok && i < n.NumFields() {
				f = n.Field(i).Name()
			}
			xs = append(xs, f+": "+a.String())
		}
		return shortType(t.Typ) + "{" + strings.Join(xs, ", ") + "}"
	case OpIface:
		return "iface[" + shortType(t.Typ) + "](" + args() + ")"
	case OpAssert:
		return t.Args[0].String() + ".(" + shortType(t.Typ) + ")"
	case OpIsType:
		return "is[" + shortType(t.Typ) + "](" + args() + ")"
	case OpObj:
		return fmt.Sprintf("obj%d", t.Obj)
	case OpFieldA:
		return "&" + t.Args[0].String() + "->" + t.Name
	case OpIndexA:
		return "&" + t.Args[0].String() + "[" + t.Args[1].String() + "]"
	case OpDeref:
		return "*" + t.Args[0].String()
	case OpList:
		return "[" + args() + "]"
	case OpElem:
		return args()
	case OpSpread:
		return args() + "..."
	case OpFlatMap:
		var xs []string
		for _, a := range t.Args[1:] {
			xs = append(xs, a.String())
		}
		sort.Strings(xs)
		return "for " + t.Args[0].String() + " {" + strings.Join(xs, "; ") + "}"
	case OpCase:
		return "if " + t.Args[0].String() + " => " + t.Args[1].String()
	case OpAnd:
		var xs []string
		for _, a := range t.Args {
			xs = append(xs, a.String())
		}
		sort.Strings(xs)
		return strings.Join(xs, " && ")
	case OpNot:
		return "!(" + args() + ")"
	case OpConcat:
		var xs []string
		for _, a := range t.Args {
			xs = append(xs, a.String())
		}
		return strings.Join(xs, " + ")
	case OpCall:
		switch t.Name {
		case "strings.Title":
			if r := t.Args[0]; r.Op == OpCall && r.Name == "strings.Replace" && r.Args[1] == tStr("-") && r.Args[2] == tStr("_") && r.Args[3] == tInt(-1) {
				return "goify(" + r.Args[0].String() + ")"
			}
		case "fix", "exists", "first":
			var xs []string
			for _, a := range t.Args[1:] {
				xs = append(xs, a.String())
			}
			sort.Strings(xs)
			if t.Name == "exists" && len(t.Args) == 2 {
				if n := lookupName(t.Args[1]); n != nil {
					return "found(" + t.Args[0].String() + ", " + n.String() + ")"
				}
			}
			tail := strings.Join(xs, "; ")
			if t.Name == "fix" && tail == bareTail {
				return "bare(" + t.Args[0].String() + ")"
			}
			return t.Name + "(" + t.Args[0].String() + "; " + tail + ")"
		}
		return t.Name + "(" + args() + ")"
	case OpTuple:
		return "(" + args() + ")"
	case OpRes:
		return t.Args[0].String() + "#" + t.Name
	case OpBin:
		if t.Name == "==" && t.Args[1].Op != OpConst && t.Args[1].Op != OpNil {
			xs := []string{t.Args[0].String(), t.Args[1].String()}
			sort.Strings(xs)
			return "(" + xs[0] + " == " + xs[1] + ")"
		}
		return "(" + t.Args[0].String() + " " + t.Name + " " + t.Args[1].String() + ")"
	case OpUn:
		return t.Name + t.Args[0].String()
	case OpLen:
		return "len(" + args() + ")"
	case OpIndex:
		if i := t.Args[1]; i.Op == OpCall && i.Name == "first" && i.Args[0] == t.Args[0] && len(i.Args) == 2 {
			if n := lookupName(i.Args[1]); n != nil {
				return "lookup(" + t.Args[0].String() + ", " + n.String() + ")"
			}
		}
		return t.Args[0].String() + "[" + t.Args[1].String() + "]"
	case OpSliceX:
		return "slice(" + args() + ")"
	case OpConv:
		return shortType(t.Typ) + "(" + args() + ")"
	case OpClosure, OpFunc:
		return "func:" + t.Fn.String()
	case OpMap:
		return "map{" + args() + "}"
	case OpWith:
		return "with(" + args() + ")"
	case OpLookup:
		return t.Args[0].String() + "[" + t.Args[1].String() + "]"
	case OpLookupOk:
		return "has(" + args() + ")"
	case OpArray:
		return "array{" + args() + "}"
	case OpPtr:
		return "&" + args()
	case OpFmt:
		return "fmt(" + t.Name + ", " + args() + ")"
	}
	return fmt.Sprintf("op%d:%s(%s)", t.Op, t.Name, args())
}

// bareTail is the step of removing tags and constraints from a type.
const bareTail = "if is[asn1go.ConstraintedType](x) => x.(asn1go.ConstraintedType).Type; if is[asn1go.TaggedType](x) => x.(asn1go.TaggedType).Type"

func isZeroTerm(a *Term) bool {
	switch a.Op {
	case OpNil:
		return true
	case OpConst:
		switch a.Val.Kind() {
		case constant.String:
			return constant.StringVal(a.Val) == ""
		case constant.Bool:
			return !constant.BoolVal(a.Val)
		case constant.Int, constant.Float:
			return constant.Sign(a.Val) == 0
		}
	case OpList:
		return len(a.Args) == 0
	case OpStruct:
		for _, x := range a.Args {
			if !isZeroTerm(x) {
				return false
			}
		}
		return true
	}
	return false
}

// subst replaces terms by others everywhere in t.
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	memo[t] = t
	changed := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = subst(a, m, memo)
		if args[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

// rebuild makes the term t with other arguments, through the simplifying constructors.
func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case OpField:
		return tField(args[0], t.Name, t.Type)
	case OpList:
		return tList(args...)
	case OpSpread:
		return tSpread(args[0])
	case OpNot:
		return tNot(args[0])
	case OpConcat:
		return tConcat(args...)
	case OpBin:
		return tBin(t.Name, args[0], args[1])
	case OpUn:
		return tUn(t.Name, args[0])
	case OpLen:
		return tLen(args[0])
	case OpIndex:
		return tIndex(args[0], args[1])
	case OpStruct:
		return tStruct(t.Typ, args)
	case OpAssert:
		return tAssert(args[0], t.Typ)
	case OpIsType:
		return tIsType(args[0], t.Typ)
	case OpRes:
		return tRes(args[0], t.Name)
	case OpFmt:
		return tFmt(t.Name, args[0])
	}
	c := *t
	c.Args = args
	c.dyn = nil
	return mk(c)
}

// contains tells whether x occurs in t.
func contains(t, x *Term) bool {
	return anyTerm(t, func(y *Term) bool { return y == x })
}

func anyTerm(t *Term, f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// lookupName: the search goes on while the name of the element's reference is not the result.
func lookupName(guard *Term) *Term {
	if guard.Op == OpAnd && len(guard.Args) == 1 {
		guard = guard.Args[0]
	}
	if guard.Op != OpNot || guard.Args[0].Op != OpBin || guard.Args[0].Name != "==" {
		return nil
	}
	for k, a := range guard.Args[0].Args {
		if a.Op == OpCall && a.Name == ".Name" && a.Args[0].Op == OpCall && a.Args[0].Name == ".Reference" && a.Args[0].Args[0].Op == OpBound {
			o := guard.Args[0].Args[1-k]
			if !anyTerm(o, func(x *Term) bool { return x.Op == OpBound && x.Name == "it" }) {
				return o
			}
		}
	}
	return nil
}

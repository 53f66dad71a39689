package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/bits"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// heapObj is abstract memory of one object. Content is replaced, never modified.
type heapObj struct {
	typ     types.Type // type of content
	content *Term
	fresh   bool  // allocated during this analysis
	base    *Term // symbolic pointer for objects that existed before
	escaped bool
	glob    *ssa.Global
}

// Event is something that happened on a path and is visible outside of the function.
type Event struct {
	Kind string // call, store, append, loop, panicsite, mark
	Name string
	Args []*Term
	Res  *Term
	Pos  token.Pos
	Loop *LoopInfo
	Fn   *ssa.Function
	NLit int // number of literals known when it happened
}

func (e Event) String() string {
	var xs []string
	for _, a := range e.Args {
		xs = append(xs, a.String())
	}
	s := e.Kind + " " + e.Name + "(" + strings.Join(xs, ", ") + ")"
	if e.Loop != nil {
		s += fmt.Sprintf("{loop %v: %d back, %d exits}", e.Loop.Name, len(e.Loop.Back), len(e.Loop.Exits))
	}
	return s
}

// LoopInfo is the summary of one loop as met on one path.
type LoopInfo struct {
	Name   string
	Fn     *ssa.Function
	Header *ssa.BasicBlock
	Over   *Term            // list that is traversed, if it is a full traversal
	Elem   *Term            // symbolic element of Over in an iteration
	Phis   map[string]*Term // loop variables: initial value by symbol name
	States []LoopState
	Back   []LoopPath
	Exits  []LoopPath

	Search    *Term // exists(list, guards under which the search goes on)
	SearchSym *Term
	SearchOff int64
	Fix       *Term
	FixBare   *Term // what Fix is taken for
	FixSym    *Term
	Bound     *Term
	Latch     string // key of the header state in which the element has been found
}

// LoopState is loop header with one vector of constant loop variables.
type LoopState struct {
	Key  string
	Vals map[string]*Term
}

// LoopPath is one path from the header back to it, or out of the loop.
type LoopPath struct {
	From, To string // keys of header states
	Lits     []*Term
	Events   []Event
	Phis     map[string]*Term // for back paths: next value of loop variables and memory by symbol name
	St       *State
	Ret      []*Term // for paths that return, after the exit
	Normal   bool    // left through the bound check
}

// runeSet is a finite abstraction of a set of characters.
type runeSet [6]uint64

var runeIndex = func() map[rune]int {
	m := map[rune]int{}
	for i, r := range runeReps {
		m[r] = i
	}
	return m
}()

func (s *runeSet) add(r rune) {
	i := runeIndex[r]
	s[i>>6] |= 1 << (i & 63)
}

func (s runeSet) has(r rune) bool {
	i, ok := runeIndex[r]
	return ok && s.at(i)
}

func (s runeSet) at(i int) bool { return s[i>>6]&(1<<(i&63)) != 0 }

func (s runeSet) size() int {
	n := 0
	for _, x := range s {
		n += bits.OnesCount64(x)
	}
	return n
}

func (s runeSet) runes() []rune {
	var rs []rune
	for i, r := range runeReps {
		if s.at(i) {
			rs = append(rs, r)
		}
	}
	return rs
}

func (s runeSet) or(o runeSet) runeSet {
	for i := range s {
		s[i] |= o[i]
	}
	return s
}

func (s runeSet) and(o runeSet) runeSet {
	for i := range s {
		s[i] &= o[i]
	}
	return s
}

func (s runeSet) without(o runeSet) runeSet {
	for i := range s {
		s[i] &^= o[i]
	}
	return s
}

// representatives of all characters: every ASCII character and every class of others the lexer could tell apart.
var runeReps = func() []rune {
	var r []rune
	for c := rune(0); c < 128; c++ {
		r = append(r, c)
	}
	// NEL, nbsp, letters without case, modifier letter, upper, lower, title case, non-ASCII digits, number that is no digit, mark, LS, symbol, RuneError, astral letter and symbol
	r = append(r, 0x85, 0xa0, 0x5d0, 0x2b0, 0xc4, 0xe4, 0x1c5, 0x660, 0xb2, 0x301, 0x2028, 0x20ac, 0xad, 0x2010, 0xfffd, 0x10400, 0x1f600, 0x212a, 0x130, 0x17f, 0x131, 0x81, 0x2160)
	return r
}()

// charClass is what the predicates of package unicode tell about a character.
func charClass(r rune) (c int) {
	for i, p := range []func(rune) bool{unicode.IsLetter, unicode.IsUpper, unicode.IsLower, unicode.IsTitle, unicode.IsDigit, unicode.IsNumber, unicode.IsSpace, unicode.IsPunct, unicode.IsSymbol, unicode.IsControl, unicode.IsMark, unicode.IsPrint, unicode.IsGraphic} {
		if p(r) {
			c |= 1 << i
		}
	}
	return
}

// learnRune adds what represents the characters on both sides of one the source mentions:
// if it is compared for order, the next character of each class, otherwise the next of its own class.
func learnRune(c rune, ordered bool) error {
	if c < 128 || c > unicode.MaxRune {
		return nil
	}
	add := func(r rune) {
		if _, ok := runeIndex[r]; !ok && (r < 0xd800 || r > 0xdfff) {
			runeIndex[r] = len(runeReps)
			runeReps = append(runeReps, r)
		}
	}
	add(c)
	own := charClass(c)
	for _, step := range []rune{1, -1} {
		seen := map[int]bool{}
		for r := c + step; r >= 128 && r <= unicode.MaxRune; r += step {
			k := charClass(r)
			if seen[k] || !ordered && k != own || r >= 0xd800 && r <= 0xdfff {
				continue
			}
			seen[k] = true
			add(r)
			if !ordered {
				break
			}
		}
	}
	if len(runeReps) > 64*len(runeSet{}) {
		return fmt.Errorf("the lexer tells too many characters apart")
	}
	return nil
}

func allRunes() runeSet {
	s := runeSet{}
	for _, r := range runeReps {
		s.add(r)
	}
	return s
}

func (s runeSet) String() string {
	var rs []int
	for _, r := range s.runes() {
		rs = append(rs, int(r))
	}
	sort.Ints(rs)
	var xs []string
	for i := 0; i < len(rs); i++ {
		j := i
		for j+1 < len(rs) && rs[j+1] == rs[j]+1 {
			j++
		}
		show := func(c int) string {
			if c > 32 && c < 127 {
				return string(rune(c))
			}
			return fmt.Sprintf("U+%04X", c)
		}
		if j > i+1 {
			xs = append(xs, show(rs[i])+".."+show(rs[j]))
			i = j
		} else {
			xs = append(xs, show(rs[i]))
		}
	}
	return "{" + strings.Join(xs, " ") + "}"
}

// State of an abstract path.
type State struct {
	heap    map[int]*heapObj
	symObj  map[*Term]int
	nextObj int
	lits    []*Term
	implied []*Term // known, but no condition of the path
	litSet  map[*Term]bool
	eq      map[*Term]*Term
	dom     map[*Term]runeSet
	events  []Event
	seq     map[string]int
	stream  *Stream
	gh      *ghost   // position of the specification, when it is followed along
	prod    *product // what it is followed for
}

// Stream is the abstract position in the input. Elements are numbered from the start of the epoch,
// an epoch starts at entry of the function or loop.
type Stream struct {
	Epoch    string
	Pos      int
	CanUnrd  bool           // last operation was a successful read of a rune
	Kinds    map[int]string // rune, eof, err
	Elems    map[int]*Term  // characters that have other names than their position gives
	Touched  bool
	MaxSeen  int
	Base     int // epochs passed
	Consumed []int
}

func (s *Stream) clone() *Stream {
	c := *s
	c.Kinds = map[int]string{}
	for k, v := range s.Kinds {
		c.Kinds[k] = v
	}
	if len(s.Elems) > 0 {
		c.Elems = make(map[int]*Term, len(s.Elems))
		for k, v := range s.Elems {
			c.Elems[k] = v
		}
	}
	c.Consumed = append([]int{}, s.Consumed...)
	return &c
}

func newState() *State {
	return &State{heap: map[int]*heapObj{}, symObj: map[*Term]int{}, nextObj: 1, litSet: map[*Term]bool{}, eq: map[*Term]*Term{}, dom: map[*Term]runeSet{},
		seq: map[string]int{}, stream: &Stream{Epoch: "s", Kinds: map[int]string{}}}
}

func (s *State) clone() *State {
	c := &State{nextObj: s.nextObj, stream: s.stream, gh: s.gh, prod: s.prod}
	c.heap = make(map[int]*heapObj, len(s.heap))
	for k, v := range s.heap {
		c.heap[k] = v
	}
	c.symObj = make(map[*Term]int, len(s.symObj))
	for k, v := range s.symObj {
		c.symObj[k] = v
	}
	c.lits = append([]*Term(nil), s.lits...)
	c.implied = append([]*Term(nil), s.implied...)
	c.litSet = make(map[*Term]bool, len(s.litSet))
	for k := range s.litSet {
		c.litSet[k] = true
	}
	c.eq = make(map[*Term]*Term, len(s.eq))
	for k, v := range s.eq {
		c.eq[k] = v
	}
	c.dom = make(map[*Term]runeSet, len(s.dom))
	for k, v := range s.dom {
		c.dom[k] = v
	}
	c.events = append([]Event(nil), s.events...)
	c.seq = make(map[string]int, len(s.seq))
	for k, v := range s.seq {
		c.seq[k] = v
	}
	return c
}

func (s *State) event(e Event) {
	if s.prod != nil {
		s.prod.event(s, e)
		return
	}
	e.NLit = len(s.lits)
	s.events = append(s.events, e)
}

func (s *State) fresh(kind string) string {
	s.seq[kind]++
	if s.seq[kind] == 1 {
		return kind
	}
	return fmt.Sprintf("%s'%d", kind, s.seq[kind])
}

func (s *State) alloc(typ types.Type, content *Term) *Term {
	id := s.nextObj
	s.nextObj++
	s.heap[id] = &heapObj{typ: typ, content: content, fresh: true}
	return tObj(id)
}

// norm applies the equalities known on the path.
func (s *State) norm(t *Term) *Term {
	if len(s.eq) == 0 {
		return t
	}
	return subst(t, s.eq, map[*Term]*Term{})
}

// decide evaluates a condition from what is known on the path.
func (s *State) decide(c *Term) (val, known bool) {
	c = s.norm(c)
	if v, ok := c.boolVal(); ok {
		return v, true
	}
	neg := false
	if c.Op == OpNot {
		c, neg = c.Args[0], true
	}
	ret := func(v bool) (bool, bool) { return v != neg, true }
	if s.litSet[c] {
		return ret(true)
	}
	if s.litSet[tNot(c)] {
		return ret(false)
	}
	if s.prod != nil {
		if v, ok := s.prod.decideDepth(c); ok {
			return ret(v)
		}
	}
	// characters
	if sym := s.domSym(c); sym != nil {
		t, f, u := s.split(c, sym)
		if u == 0 {
			if t == 0 && f == 0 {
				return ret(false)
			}
			if f == 0 {
				return ret(true)
			}
			if t == 0 {
				return ret(false)
			}
		}
	}
	switch c.Op {
	case OpIsType:
		for _, l := range s.all() {
			if l.Op == OpIsType && l.Args[0] == c.Args[0] {
				if types.Identical(l.Typ, c.Typ) {
					return ret(true)
				}
				if !isIface(l.Typ) {
					if it, ok := c.Typ.Underlying().(*types.Interface); ok {
						return ret(types.Implements(l.Typ, it))
					}
					return ret(false)
				}
			}
			if l.Op == OpBin && l.Name == "==" && l.Args[0] == c.Args[0] && l.Args[1].Op == OpNil {
				return ret(false)
			}
		}
	case OpBin:
		a, b := c.Args[0], c.Args[1]
		switch c.Name {
		case "==":
			if b.Op == OpNil {
				for _, l := range s.all() {
					if l.Op == OpIsType && l.Args[0] == a {
						return ret(false)
					}
				}
			}
			if n, ok := b.intVal(); ok {
				lo, hi, hasLo, hasHi := s.bounds(a)
				if (hasLo && n < lo) || (hasHi && n > hi) {
					return ret(false)
				}
				if hasLo && hasHi && lo == hi && lo == n {
					return ret(true)
				}
			}
			if s.litSet[tBin("<", a, b)] || s.litSet[tBin("<", b, a)] {
				return ret(false)
			}
		case "<":
			if s.litSet[tBin("<", b, a)] {
				return ret(false)
			}
			if s.litSet[tBin("==", a, b)] {
				return ret(false)
			}
			if n, ok := b.intVal(); ok {
				lo, hi, hasLo, hasHi := s.bounds(a)
				if hasHi && hi < n {
					return ret(true)
				}
				if hasLo && lo >= n {
					return ret(false)
				}
			}
		}
	}
	return false, false
}

func (s *State) all() []*Term {
	if len(s.implied) == 0 {
		return s.lits
	}
	return append(append([]*Term{}, s.lits...), s.implied...)
}

// bounds collects constant bounds of an integer term.
func (s *State) bounds(a *Term) (lo, hi int64, hasLo, hasHi bool) {
	setLo := func(n int64) {
		if !hasLo || n > lo {
			lo, hasLo = n, true
		}
	}
	setHi := func(n int64) {
		if !hasHi || n < hi {
			hi, hasHi = n, true
		}
	}
	if a.Op == OpLen {
		setLo(int64(minLen(a.Args[0])))
	}
	ne := map[int64]bool{}
	for _, l := range s.all() {
		neg := false
		if l.Op == OpNot {
			l, neg = l.Args[0], true
		}
		if a.Op == OpLen && l.Op == OpBin && l.Name == "==" && !neg && (l.Args[0] == a.Args[0] && isEmptyList(l.Args[1]) || l.Args[1] == a.Args[0] && isEmptyList(l.Args[0])) {
			setHi(0)
		}
		if l.Op != OpBin || l.Args[0] != a {
			continue
		}
		n, ok := l.Args[1].intVal()
		if !ok {
			continue
		}
		switch {
		case l.Name == "<" && !neg:
			setHi(n - 1)
		case l.Name == "<" && neg:
			setLo(n)
		case l.Name == "==" && !neg:
			setLo(n)
			setHi(n)
		case l.Name == "==" && neg:
			ne[n] = true
		}
	}
	for hasLo && ne[lo] {
		lo++
	}
	for hasHi && ne[hi] {
		hi--
	}
	return
}

func isEmptyList(t *Term) bool { return t.Op == OpNil || t.Op == OpList && len(t.Args) == 0 }

func (s *State) domSym(c *Term) *Term {
	if c.dyn == nil || c.dyn.many {
		return nil
	}
	var res *Term
	for _, x := range c.dyn.syms {
		if _, ok := s.dom[x]; ok {
			if res != nil {
				return nil
			}
			res = x
		} else {
			return nil
		}
	}
	return res
}

// split counts characters of the domain of sym for which c is true, false, or can not be told.
func (s *State) split(c, sym *Term) (t, f, u int) {
	yes, no, und := evalSet(c, sym, s.dom[sym])
	return yes.size(), no.size(), und.size()
}

// runeTab is what a condition on a character is for those it was evaluated for.
type runeTab struct {
	shape        *Term
	yes, no, und runeSet
}

type evalKey struct{ c, sym *Term }

var evalTab = map[evalKey]*runeTab{}
var evalShape = map[*Term]*runeTab{}
var anyRune = tSymT("·char", types.Typ[types.Rune])

// evalSet splits a domain by a condition: characters it is true for, false for, and undecided for.
func evalSet(c, sym *Term, d runeSet) (yes, no, und runeSet) {
	t := evalTab[evalKey{c, sym}]
	if t == nil {
		// conditions are the same for all characters
		g := subst(c, map[*Term]*Term{sym: anyRune}, map[*Term]*Term{})
		t = evalShape[g]
		if t == nil {
			t = &runeTab{shape: g}
			evalShape[g] = t
		}
		evalTab[evalKey{c, sym}] = t
	}
	todo := d.without(t.yes.or(t.no).or(t.und))
	if todo != (runeSet{}) {
		for i, r := range runeReps {
			if !todo.at(i) {
				continue
			}
			res := foldPure(subst(t.shape, map[*Term]*Term{anyRune: tInt(int64(r))}, map[*Term]*Term{}))
			switch v, ok := res.boolVal(); {
			case !ok:
				t.und.add(r)
			case v:
				t.yes.add(r)
			default:
				t.no.add(r)
			}
		}
	}
	return d.and(t.yes), d.and(t.no), d.and(t.und)
}

var runeTables = map[string]*unicode.RangeTable{
	"unicode.Letter": unicode.Letter, "unicode.L": unicode.L, "unicode.Upper": unicode.Upper, "unicode.Lu": unicode.Lu,
	"unicode.Lower": unicode.Lower, "unicode.Ll": unicode.Ll, "unicode.Title": unicode.Title, "unicode.Lt": unicode.Lt,
	"unicode.Lm": unicode.Lm, "unicode.Lo": unicode.Lo, "unicode.Digit": unicode.Digit, "unicode.Nd": unicode.Nd,
	"unicode.Number": unicode.Number, "unicode.N": unicode.N,
	"unicode.White_Space": unicode.White_Space, "unicode.Space": unicode.Space, "unicode.Z": unicode.Z, "unicode.Zs": unicode.Zs,
	"unicode.Punct": unicode.Punct, "unicode.P": unicode.P, "unicode.Symbol": unicode.Symbol, "unicode.S": unicode.S,
	"unicode.Mark": unicode.Mark, "unicode.M": unicode.M, "unicode.ASCII_Hex_Digit": unicode.ASCII_Hex_Digit,
}

// foldPure folds calls of pure standard library predicates on constants.
func foldPure(t *Term) *Term {
	if len(t.Args) == 0 {
		return t
	}
	args := make([]*Term, len(t.Args))
	changed := false
	for i, a := range t.Args {
		args[i] = foldPure(a)
		changed = changed || args[i] != a
	}
	if t.Op == OpCall && len(args) == 1 {
		if n, ok := args[0].intVal(); ok {
			r := rune(n)
			if strings.HasPrefix(t.Name, "in unicode.") {
				return tBool(unicode.Is(runeTables[t.Name[3:]], r))
			}
			switch t.Name {
			case "unicode.IsLetter":
				return tBool(unicode.IsLetter(r))
			case "unicode.IsDigit":
				return tBool(unicode.IsDigit(r))
			case "unicode.IsNumber":
				return tBool(unicode.IsNumber(r))
			case "unicode.IsUpper":
				return tBool(unicode.IsUpper(r))
			case "unicode.IsLower":
				return tBool(unicode.IsLower(r))
			case "unicode.IsTitle":
				return tBool(unicode.IsTitle(r))
			case "unicode.IsSpace":
				return tBool(unicode.IsSpace(r))
			case "unicode.IsPunct":
				return tBool(unicode.IsPunct(r))
			case "unicode.IsSymbol":
				return tBool(unicode.IsSymbol(r))
			case "unicode.IsControl":
				return tBool(unicode.IsControl(r))
			case "unicode.IsPrint":
				return tBool(unicode.IsPrint(r))
			case "unicode.IsGraphic":
				return tBool(unicode.IsGraphic(r))
			case "unicode.IsMark":
				return tBool(unicode.IsMark(r))
			case "unicode.ToLower":
				return tInt(int64(unicode.ToLower(r)))
			case "runelen":
				return tInt(int64(len(string(r))))
			case "lastbyte", "firstbyte":
				b := string(r)
				if t.Name == "lastbyte" {
					return tInt(int64(b[len(b)-1]))
				}
				return tInt(int64(b[0]))
			case "unicode.ToUpper":
				return tInt(int64(unicode.ToUpper(r)))
			}
		}
	}
	if t.Op == OpConv && len(args) == 1 {
		if t.Name == "runestr" {
			if n, ok := args[0].intVal(); ok {
				return tStr(string(rune(n)))
			}
		}
	}
	if t.Op == OpCall && len(args) == 2 {
		a, ok1 := args[0].strVal()
		b, ok2 := args[1].strVal()
		n, ok3 := args[1].intVal()
		switch {
		case t.Name == "strings.ContainsRune" && ok1 && ok3:
			return tBool(strings.ContainsRune(a, rune(n)))
		case t.Name == "strings.IndexRune" && ok1 && ok3:
			return tInt(int64(strings.IndexRune(a, rune(n))))
		case t.Name == "strings.IndexByte" && ok1 && ok3:
			return tInt(int64(strings.IndexByte(a, byte(n))))
		case t.Name == "strings.Contains" && ok1 && ok2:
			return tBool(strings.Contains(a, b))
		}
	}
	if t.Op == OpLookup || t.Op == OpLookupOk {
		if args[0].Op == OpMap && args[0].Name == "known" && args[1].isConst() {
			for i := 0; i+1 < len(args[0].Args); i += 2 {
				if args[0].Args[i] == args[1] {
					if t.Op == OpLookupOk {
						return tBool(true)
					}
					return args[0].Args[i+1]
				}
			}
			if t.Op == OpLookupOk {
				return tBool(false)
			}
			if t.Type != nil {
				return zero(t.Type)
			}
		}
	}
	if changed {
		r := rebuild(t, args)
		return r
	}
	return t
}

// assume adds a condition. It returns false if the path becomes infeasible.
func (s *State) assume(c *Term) bool {
	c = s.norm(c)
	if v, known := s.decide(c); known {
		if !v {
			return false
		}
		// a rune condition can be known without being recorded, that is fine
		return true
	}
	if sym := s.domSym(c); sym != nil {
		if yes, _, und := evalSet(c, sym, s.dom[sym]); und.size() == 0 {
			s.dom[sym] = yes
			return yes.size() > 0
		}
	}
	if c.Op == OpAnd {
		for _, a := range c.Args {
			if !s.assume(a) {
				return false
			}
		}
		return true
	}
	s.lits = append(s.lits, c)
	s.litSet[c] = true
	if c.Op == OpBin && c.Name == "==" && c.Args[1].Op == OpConst && c.Args[0].Op != OpConst && c.Args[1].Val.Kind() != constant.Float {
		s.eq[c.Args[0]] = c.Args[1]
		// earlier literals may contradict
		return s.recheck()
	}
	if c.Op == OpBin && c.Name == "==" && c.Args[1].Op == OpNil && c.Args[0].Op != OpNil {
		s.eq[c.Args[0]] = tNil()
		return s.recheck()
	}
	return true
}

// suppose records what must hold for the path to go on without a panic. It is no condition of the path.
func (s *State) suppose(c *Term) {
	c = s.norm(c)
	if _, known := s.decide(c); !known {
		s.litSet[c] = true
		s.implied = append(s.implied, c)
	}
}

// imply turns conditions of the path into what is merely known.
func (s *State) imply(f func(l *Term) bool) {
	var n []*Term
	for _, l := range s.lits {
		if f(l) {
			s.implied = append(s.implied, l)
		} else {
			n = append(n, l)
		}
	}
	s.lits = n
}

func (s *State) recheck() bool {
	for _, l := range s.lits {
		if l.Op == OpBin && l.Name == "==" {
			continue
		}
		n := s.norm(l)
		if v, ok := n.boolVal(); ok && !v {
			return false
		}
	}
	return true
}

// resolve finds the object and the path in it that an address denotes.
func (s *State) resolve(addr *Term) (int, []string, bool) {
	switch addr.Op {
	case OpObj:
		return addr.Obj, nil, true
	case OpFieldA:
		id, path, ok := s.resolve(addr.Args[0])
		if !ok {
			return 0, nil, false
		}
		return id, append(append([]string{}, path...), addr.Name), true
	case OpIndexA:
		if n, ok := addr.Args[1].intVal(); ok {
			id, path, ok := s.resolve(addr.Args[0])
			if ok && s.isArrayAt(id, path) {
				return id, append(append([]string{}, path...), fmt.Sprint(n)), true
			}
		}
		return 0, nil, false
	case OpNil, OpConst, OpBad:
		return 0, nil, false
	}
	if addr.Type == nil {
		return 0, nil, false
	}
	if id, ok := s.symObj[addr]; ok {
		return id, nil, true
	}
	p, ok := addr.Type.Underlying().(*types.Pointer)
	if !ok {
		return 0, nil, false
	}
	id := s.nextObj
	s.nextObj++
	s.symObj[addr] = id
	s.heap[id] = &heapObj{typ: p.Elem(), content: derefDefault(addr, p.Elem()), base: addr}
	return id, nil, true
}

func derefDefault(p *Term, elem types.Type) *Term {
	if p.Op == OpPtr {
		return p.Args[0]
	}
	return mk(Term{Op: OpDeref, Args: []*Term{p}, Type: elem})
}

func (s *State) isArrayAt(id int, path []string) bool {
	t := s.heap[id].typ
	for _, p := range path {
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == p {
					t = st.Field(i).Type()
				}
			}
		} else if a, ok := t.Underlying().(*types.Array); ok {
			t = a.Elem()
		}
	}
	_, ok := t.Underlying().(*types.Array)
	return ok
}

func readPath(v *Term, typ types.Type, path []string) (*Term, types.Type) {
	for _, p := range path {
		switch u := typ.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == p {
					v = tField(v, p, u.Field(i).Type())
					typ = u.Field(i).Type()
					break
				}
			}
		case *types.Array:
			var n int64
			fmt.Sscan(p, &n)
			v = tIndex(v, tInt(n))
			typ = u.Elem()
		}
	}
	return v, typ
}

func writePath(old *Term, typ types.Type, path []string, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	p := path[0]
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == p {
				ft := u.Field(i).Type()
				return setField(old, typ, p, writePath(tField(old, p, ft), ft, path[1:], v))
			}
		}
	case *types.Array:
		var n int
		fmt.Sscan(p, &n)
		if old.Op == OpArray && n < len(old.Args) {
			args := append([]*Term{}, old.Args...)
			args[n] = writePath(args[n], u.Elem(), path[1:], v)
			return mk(Term{Op: OpArray, Args: args, Type: typ})
		}
		return mk(Term{Op: OpWith, Name: p, Args: []*Term{old, v}, Type: typ})
	}
	return old
}

func (s *State) load(addr *Term, typ types.Type) *Term {
	if id, path, ok := s.resolve(addr); ok {
		o := s.heap[id]
		v, _ := readPath(o.content, o.typ, path)
		return v
	}
	if addr.Op == OpIndexA {
		base := addr.Args[0]
		if base.Op == OpObj || base.Op == OpFieldA || base.Op == OpIndexA || (base.Type != nil && isPtrToArray(base.Type)) {
			if id, path, ok := s.resolve(base); ok {
				o := s.heap[id]
				v, _ := readPath(o.content, o.typ, path)
				r := tIndex(v, addr.Args[1])
				if r.Type == nil {
					r.Type = typ
				}
				return r
			}
		}
		r := tIndex(base, addr.Args[1])
		if r.Type == nil {
			r.Type = typ
		}
		return r
	}
	if addr.Op == OpFieldA {
		v := s.load(addr.Args[0], nil)
		return tField(v, addr.Name, typ)
	}
	return mk(Term{Op: OpDeref, Args: []*Term{addr}, Type: typ})
}

func isPtrToArray(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Array)
	return ok
}

func (s *State) store(addr, v *Term, pos token.Pos, fn *ssa.Function) {
	id, path, ok := s.resolve(addr)
	if !ok {
		if addr.Op == OpIndexA {
			// element of array or slice at unknown index
			base := addr.Args[0]
			if id, path, ok := s.resolve(base); ok && s.isArrayAt(id, path) {
				o := s.heap[id]
				old, _ := readPath(o.content, o.typ, path)
				nv := mk(Term{Op: OpWith, Name: "?", Args: []*Term{old, addr.Args[1], v}, Type: old.Type})
				c := *o
				c.content = writePath(o.content, o.typ, path, nv)
				s.heap[id] = &c
				if !o.fresh {
					s.event(Event{Kind: "store", Name: addr.String(), Args: []*Term{addr, v}, Pos: pos, Fn: fn})
				}
				return
			}
		}
		s.event(Event{Kind: "store", Name: addr.String(), Args: []*Term{addr, v}, Pos: pos, Fn: fn})
		return
	}
	o := s.heap[id]
	old, _ := readPath(o.content, o.typ, path)
	if s.prod != nil {
		v = s.prod.stored(s, id, path, old, v, pos, fn)
	}
	c := *o
	c.content = writePath(o.content, o.typ, path, v)
	s.heap[id] = &c
	if !o.fresh || o.escaped {
		kind := "store"
		var ext []*Term
		a, b := segs(old), segs(v)
		if len(path) > 0 && v.Op == OpList && len(b) > len(a) {
			kind = "append"
			for i := range a {
				if a[i] != b[i] {
					kind = "store"
				}
			}
			if kind == "append" {
				ext = b[len(a):]
			}
		}
		name := strings.Join(path, ".")
		where := s.objName(id)
		if kind == "append" {
			s.event(Event{Kind: kind, Name: name, Args: append([]*Term{where}, ext...), Pos: pos, Fn: fn})
		} else {
			s.event(Event{Kind: kind, Name: name, Args: []*Term{where, v}, Pos: pos, Fn: fn})
		}
	}
}

func (s *State) objName(id int) *Term {
	o := s.heap[id]
	if o.glob != nil {
		return mk(Term{Op: OpGlobal, Name: o.glob.String()})
	}
	if o.base != nil {
		return o.base
	}
	return tObj(id)
}

// snapshot replaces pointers to objects made on this path by their content.
func (s *State) snapshot(t *Term) *Term {
	return s.snap(t, map[int]bool{}, map[*Term]*Term{})
}

func (s *State) snap(t *Term, busy map[int]bool, memo map[*Term]*Term) *Term {
	t = s.norm(t)
	if t.Op == OpObj {
		o := s.heap[t.Obj]
		if o == nil {
			return t
		}
		if o.base != nil {
			return o.base
		}
		if busy[t.Obj] || !o.fresh {
			return t
		}
		busy[t.Obj] = true
		c := s.snap(o.content, busy, memo)
		delete(busy, t.Obj)
		return mk(Term{Op: OpPtr, Args: []*Term{c}})
	}
	if len(t.Args) == 0 {
		return t
	}
	if !anyTerm(t, func(x *Term) bool { return x.Op == OpObj }) {
		return t
	}
	args := make([]*Term, len(t.Args))
	changed := false
	for i, a := range t.Args {
		args[i] = s.snap(a, busy, memo)
		changed = changed || args[i] != a
	}
	if !changed {
		return t
	}
	return rebuild(t, args)
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// The lexer is compared with its specification by abstract interpretation of both in step: a state is what the
// code has in memory together with where a deterministic scanner, written from the properties, is in the same
// text. Loops are explored over header states, normalised so that there are finitely many; recursive functions
// by tabulation of entry states. Characters are sets of representatives (see runeReps), texts are collapsed to
// first character, middle and last character, line and nesting counts are kept relative to those of the scanner.

// ghost is the state of the specification. It is never modified once it is in a State.
type ghost struct {
	mode    string // start, word, number, line, block, end, doom
	lastNum bool   // a number ended right before
	text    []*Term
	upper   bool
	dirty   bool
	hyphen  bool
	prev    rune
	com     bool // in a comment or right after it
	depth   *Term
	sp      int // position of the specification in the stream
	lines   *Term
	cr      bool
	tok     *Term
	what    string // what ended
	num     string // a number is known to fit an integer (ok) or not (bad)
	endPos  int
	need    string // doom: properties that want the error to be set
	why     string
	pend    []pendErr
	adv     []int // characters consumed since each enclosing mark, between -3 and 2
}

type pendErr struct {
	pos   int
	found []*Term
	at    token.Pos
}

func (g *ghost) with(f func(*ghost)) *ghost {
	c := *g
	f(&c)
	return &c
}

func (g *ghost) key() string { return g.keyAdv(len(g.adv)) }

func (g *ghost) keyAdv(n int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "|G%s %v %v %v %v %d %v sp%d %v %d %s %s", g.mode, g.lastNum, g.upper, g.dirty, g.hyphen, g.prev, g.com, g.sp, g.cr, g.endPos, g.need, g.what)
	b.WriteString(g.num)
	for _, t := range g.text {
		fmt.Fprintf(&b, ",%d", t.id)
	}
	for _, t := range []*Term{g.depth, g.lines, g.tok} {
		if t != nil {
			fmt.Fprintf(&b, ";%d", t.id)
		}
	}
	for _, x := range g.pend {
		fmt.Fprintf(&b, "p%d", x.pos)
		for _, t := range x.found {
			fmt.Fprintf(&b, ",%d", t.id)
		}
	}
	fmt.Fprintf(&b, " %v", g.adv[:n])
	return b.String()
}

type product struct {
	in      *Interp
	lexType types.Type
	errFld  string
	reader  *Term // bufReader of the lexer
	tokens  map[string]*Term
	viol    func(props, rule, subject, item string, pos token.Pos, format string, args ...interface{})
	reached map[string]int // ends of the specification that were met
	seq     int
	nodes   int
	rec     map[*ssa.Function]bool
	table   map[string]*recEntry
	order   []*recEntry
	stack   []*recEntry
	iter    int
	growth  int
	consts  map[*Term]bool
	depths  map[*Term]int64 // least value of symbols for nesting depths
	lockst  map[string]map[string][2]int64
	curRec  string
	calls   map[[2]string]int // least consumption before recursive calls, by entry
	cur     *ssa.Function
	coarse  bool // forget characters looked ahead at where nothing depends on them
	probe   func(v *Term)
}

type recEntry struct {
	key     string
	fn      *ssa.Function
	st      *State
	args    []*Term
	results []recResult
	final   bool
	running bool
	self    bool // it is called while it runs
	iter    int
	depth   int // place in the stack
	low     int // lowest place of an entry it depends on
	loose   []*recEntry
}

type recResult struct {
	st  *State
	res []*Term

	core string
}

func tLexErr() *Term { return mk(Term{Op: OpSym, Name: "lexErr", Type: errType}) }

func tAtoiErr() *Term { return tSymT("errNotNumber", errType) }

func domKeys(st *State) map[*Term]bool {
	m := map[*Term]bool{}
	for k := range st.dom {
		m[k] = true
	}
	return m
}

// tabulated functions are interpreted once for each state they are called in.
func (p *product) tabulated(f *ssa.Function) bool {
	v, ok := p.rec[f]
	if !ok {
		v = p.in.pr.recursive(f)
		if !v && len(f.FreeVars) == 0 && len(p.in.pr.loopsOf(f)) > 0 {
			for _, g := range p.in.pr.reachable(f) {
				v = v || callsReader(g)
			}
		}
		if v && !p.in.pr.recursive(f) && p.once(f, nil) {
			v = false
		}
		p.rec[f] = v
	}
	return v
}

// once says whether a function is called from one place only, which is met once on a way through the lexer.
func (p *product) once(f *ssa.Function, seen []*ssa.Function) bool {
	for _, g := range seen {
		if g == f {
			return false
		}
	}
	var sites []ssa.CallInstruction
	for _, g := range p.in.pr.Funcs {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				for _, o := range i.Operands(nil) {
					if *o != ssa.Value(f) {
						continue
					}
					c, ok := i.(*ssa.Call)
					if !ok || c.Call.StaticCallee() != f {
						return false
					}
					sites = append(sites, c)
				}
			}
		}
	}
	if len(sites) == 0 {
		return true // called through an interface
	}
	if len(sites) > 1 {
		return false
	}
	g := sites[0].Parent()
	for _, l := range p.in.pr.loopsOf(g) {
		if l.blocks[sites[0].Block()] {
			return false
		}
	}
	return p.once(g, append(seen, f))
}

func callsReader(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				if h := c.Common().StaticCallee(); h != nil && strings.HasPrefix(h.String(), "(*bufio.Reader)") {
					return true
				}
			}
		}
	}
	return false
}

func (p *product) event(s *State, e Event) {
	if e.Kind == "panicsite" {
		fn := "?"
		if e.Fn != nil {
			fn = shortFn(e.Fn)
		}
		what := ""
		for _, a := range e.Args {
			what += " " + a.String()
		}
		if len(what) > 200 {
			what = what[:200]
		}
		p.viol("C03", "no panic", fn, e.Name, e.Pos, "reading input can panic here (%s):%s", e.Name, what)
	}
}

// stored is called for every write to memory the lexer knows.
func (p *product) stored(s *State, id int, path []string, old, v *Term, pos token.Pos, fn *ssa.Function) *Term {
	if !types.Identical(s.heap[id].typ, p.lexType) {
		return v
	}
	if len(path) == 0 {
		ft := fieldType(p.lexType, p.errFld)
		a, b := tField(old, p.errFld, ft), tField(v, p.errFld, ft)
		if a == b {
			return v
		}
		return setField(v, p.lexType, p.errFld, p.storedErr(s, a, b, pos, fn))
	}
	if len(path) == 1 && path[0] == p.errFld {
		return p.storedErr(s, old, v, pos, fn)
	}
	return v
}

func (p *product) storedErr(s *State, old, v *Term, pos token.Pos, fn *ssa.Function) *Term {
	if old == v {
		return v
	}
	if is, known := s.decide(tBin("==", old, tNil())); !known || !is {
		p.viol("C01", "first error is kept", shortFn(fn), "store", pos, "the error of the run is replaced by %s, the first error met is not what is returned", v)
		return tLexErr()
	}
	if is, known := s.decide(tBin("==", v, tNil())); !known || is {
		p.viol("C01", "first error is kept", shortFn(fn), "nil store", pos, "what is recorded as the error of the run may be nil: %s", v)
		return v
	}
	// numbers of the text that depend on the line
	sn := s.snapshot(v)
	if p.probe != nil {
		p.probe(sn)
		return tLexErr()
	}
	var found []*Term
	base := s.gh.lines
	if base.Op == OpBin {
		base = base.Args[0]
	}
	var walk func(t *Term)
	seen := map[*Term]bool{}
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op != OpList && t.Op != OpConcat && t.Op != OpCall && t.Op != OpFmt && t.Op != OpStruct && t.Op != OpPtr && t.Op != OpIface && t.Op != OpElem {
			if anyTerm(t, func(x *Term) bool {
				return x.Op == OpSym && (strings.HasSuffix(x.Name, "λ") || strings.Contains(x.Name, "⊤"))
			}) {
				found = append(found, t)
				return
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(sn)
	if len(found) == 0 {
		found = append(found, sn)
	}
	s.gh = s.gh.with(func(g *ghost) {
		g.pend = append(append([]pendErr{}, g.pend...), pendErr{pos: s.stream.Pos, found: found, at: pos})
	})
	return tLexErr()
}

func fieldType(t types.Type, name string) types.Type {
	so := structOf(t)
	for i := 0; i < so.NumFields(); i++ {
		if so.Field(i).Name() == name {
			return so.Field(i).Type()
		}
	}
	return nil
}

func isNL(r rune) bool { return r >= 10 && r <= 13 }
func isWS(r rune) bool { return r >= 9 && r <= 13 || r == 32 }
func isWordChar(r rune) bool {
	return unicode.IsLetter(r) || unicode.IsDigit(r) || r == '-'
}

type classState struct {
	class string
	st    *State
}

// partition splits a state by the class of a character.
func (p *product) partition(s *State, sym *Term, class func(r rune) string) []classState {
	d, ok := s.dom[sym]
	if !ok {
		p.in.fail("character %s is not known", sym)
	}
	m := map[string]runeSet{}
	for _, r := range d.runes() {
		c := class(r)
		x := m[c]
		x.add(r)
		m[c] = x
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var res []classState
	for i, k := range ks {
		n := s
		if i < len(ks)-1 {
			n = s.clone()
		} else if len(ks) > 1 {
			// s itself is the last one; its domains are not shared with clones
		}
		res = append(res, classState{k, n})
	}
	for i, k := range ks {
		res[i].st.dom[sym] = m[k]
	}
	return res
}

func lineEnd(r rune) string {
	switch {
	case r == '\r':
		return "cr"
	case r == '\n':
		return "lf"
	case isNL(r):
		return "nl"
	}
	return ""
}

// count accounts for a character the specification moves over.
func (g *ghost) count(class string) {
	switch class {
	case "cr":
		g.lines = tBin("+", g.lines, tInt(1))
		g.cr = true
		return
	case "lf":
		if !g.cr {
			g.lines = tBin("+", g.lines, tInt(1))
		}
	case "nl":
		g.lines = tBin("+", g.lines, tInt(1))
	}
	g.cr = false
}

// settle compares the line in recorded errors with the count of the specification.
func (p *product) settle(s *State) []*State {
	g := s.gh
	if len(g.pend) == 0 {
		return []*State{s}
	}
	e := g.pend[0]
	if e.pos < g.sp {
		if g.mode == "doom" || g.mode == "end" {
			// put back what was looked at
			p.viol("C06", "line of errors", p.curName(), "position", e.at, "the error is recorded after characters were put back that had been taken")
		}
		s.gh = g.with(func(g *ghost) { g.pend = g.pend[1:] })
		return p.settle(s)
	}
	// walk from sp to the position
	cur := []*State{s}
	type cnt struct {
		lines *Term
		cr    bool
	}
	cs := []cnt{{g.lines, g.cr}}
	for i := g.sp; i < e.pos; i++ {
		var nst []*State
		var ncs []cnt
		for k, x := range cur {
			for _, c := range p.partition(x, x.stream.elem(i), lineEnd) {
				t := &ghost{lines: cs[k].lines, cr: cs[k].cr}
				t.count(c.class)
				nst = append(nst, c.st)
				ncs = append(ncs, cnt{t.lines, t.cr})
			}
		}
		cur, cs = nst, ncs
	}
	var res []*State
	for k, x := range cur {
		want := tBin("+", cs[k].lines, tInt(1))
		for _, f := range e.found {
			if f != want {
				if debugOn {
					n := normal{st: x}
					debugf("LINE %s %s", n.key(0), x.heap[1].content)
				}
				p.viol("C06", "line of errors", p.curName(), "line", e.at, "the line given is %s, it should be %s (λ is the number of line ends before)", clean(f), clean(want))
			}
		}
		p.reached["line of an error"]++
		x.gh = x.gh.with(func(g *ghost) { g.pend = g.pend[1:] })
		res = append(res, p.settle(x)...)
	}
	return res
}

func clean(t *Term) string {
	s := t.String()
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}

func (p *product) curName() string {
	if p.cur != nil {
		return shortFn(p.cur)
	}
	return "lexer"
}

func (g *ghost) comProps(base string) string {
	if g.com {
		return "C05"
	}
	return base
}

// sync moves the specification up to where the code is. With force the code is at the end of a call: what the
// specification wants to know of the characters that follow is split, and it may not want to consume them.
func (p *product) sync(s *State, force bool) []*State {
	var done []*State
	work := p.settle(s)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		n, again := p.step(x, force)
		if again {
			work = append(work, n...)
		} else {
			done = append(done, n...)
		}
	}
	return done
}

func (p *product) end(s *State, tok, what string, n int) []*State {
	s.gh = s.gh.with(func(g *ghost) {
		g.mode, g.what, g.endPos = "end", what, g.sp+n
		g.tok = p.tokens[tok]
		if tok == "" {
			g.tok = tInt(0)
		}
	})
	return []*State{s}
}

func (p *product) doom(s *State, need, why string) []*State {
	s.gh = s.gh.with(func(g *ghost) {
		g.mode, g.need, g.why, g.what = "doom", need, why, why
	})
	return []*State{s}
}

// eat moves the specification over n characters.
func (p *product) eat(s *State, n int, f func(g *ghost)) []*State {
	cur := []*State{s}
	for i := 0; i < n; i++ {
		var nx []*State
		for _, x := range cur {
			for _, c := range p.partition(x, x.stream.elem(x.gh.sp), lineEnd) {
				cl := c.class
				c.st.gh = c.st.gh.with(func(g *ghost) { g.count(cl); g.sp++ })
				nx = append(nx, c.st)
			}
		}
		cur = nx
	}
	for _, x := range cur {
		x.gh = x.gh.with(f)
	}
	return cur
}

// look tells the kind of the character i after the position of the specification. Without knowledge it returns
// the states in which it is known, if force is set.
func (p *product) look(s *State, i int, force bool) (kind string, split []*State) {
	pos := s.gh.sp + i
	if k := s.stream.Kinds[pos]; k != "" {
		return k, nil
	}
	if pos < s.stream.Pos {
		return "rune", nil
	}
	if force {
		return "", p.in.kindAt(s, pos)
	}
	return "", nil
}

func in1(c rune, s string) bool { return strings.ContainsRune(s, c) }

var singleSymbols = map[rune]string{'{': "OPEN_CURLY", '}': "CLOSE_CURLY", '<': "LESS", '>': "GREATER", ',': "COMMA", '.': "DOT", '(': "OPEN_ROUND", ')': "CLOSE_ROUND",
	'[': "OPEN_SQUARE", ']': "CLOSE_SQUARE", '-': "MINUS", ':': "COLON", '=': "EQUALS", '"': "QUOTATION_MARK", '\'': "APOSTROPHE", ';': "SEMICOLON", '@': "AT", '|': "PIPE", '!': "EXCLAMATION", '^': "CARET"}

// step makes one move of the specification.
func (p *product) step(s *State, force bool) (res []*State, again bool) {
	g := s.gh
	str := s.stream
	limit := str.Pos
	if str.CanUnrd && !force {
		limit--
	}
	if str.Pos < g.sp {
		if g.mode != "doom" {
			p.viol("C04", "exact consumption", p.curName(), "put back", token.NoPos, "characters that belong to an earlier token or comment are put back")
			return nil, true
		}
		s.gh = g.with(func(g *ghost) { g.sp = str.Pos })
		return []*State{s}, false
	}
	avail := g.sp < limit
	switch g.mode {
	case "doom":
		if avail {
			return p.eat(s, 1, func(g *ghost) {}), true
		}
		return []*State{s}, false
	case "end":
		if limit > g.endPos {
			p.viol(g.comProps("C04"), "exact consumption", p.curName(), "after "+g.what, token.NoPos, "characters after %s are consumed with it", g.what)
			return nil, true
		}
		return []*State{s}, false
	}
	kind, split := p.look(s, 0, force)
	if split != nil {
		return split, true
	}
	if !avail {
		if !force {
			return []*State{s}, false
		}
		// the code has stopped here
		switch kind {
		case "err":
			return p.doom(s, "C01", "read error"), true
		case "eof":
			switch g.mode {
			case "start", "line":
				return p.end(s, "", "end of input", 0), true
			case "block":
				return p.doom(s, "C05", "block comment that is not closed"), true
			}
		}
	} else if kind != "rune" {
		p.in.fail("position %d was passed but is %s", g.sp, kind)
	}
	more := func(what string) ([]*State, bool) {
		props := "C04"
		if g.mode == "line" || g.mode == "block" || g.com {
			props = "C05"
		}
		p.viol(props, "exact consumption", p.curName(), "inside "+what, token.NoPos, "a token is delivered within %s, the characters that follow belong to it", what)
		return nil, true
	}
	each := func(class func(r rune) string, f func(c string, x *State) ([]*State, bool)) ([]*State, bool) {
		var res []*State
		ag := false
		for _, c := range p.partition(s, str.elem(g.sp), class) {
			r, a := f(c.class, c.st)
			res = append(res, r...)
			ag = ag || a
		}
		return res, ag
	}
	switch g.mode {
	case "start":
		if kind == "rune" && !avail {
			if force {
				return more("white space or a comment that is followed by a token")
			}
			return []*State{s}, false
		}
		return each(func(r rune) string {
			switch {
			case isWS(r):
				return "ws"
			case unicode.IsLetter(r):
				if r == 'e' || r == 'E' {
					return "e"
				}
				if unicode.IsUpper(r) {
					return "upper"
				}
				return "lower"
			case r >= '0' && r <= '9':
				return "digit"
			case unicode.IsDigit(r):
				return "dirty"
			case in1(r, "-/:.[]"):
				return string(r)
			case singleSymbols[r] != "":
				return "single " + string(r)
			}
			return "bad"
		}, func(c string, x *State) ([]*State, bool) {
			sym := x.stream.elem(x.gh.sp)
			switch {
			case c == "ws":
				return p.eat(x, 1, func(g *ghost) { g.lastNum = false; g.com = false }), true
			case c == "e" && g.lastNum:
				return p.end(x, "EXPONENT", "exponent marker", 1), true
			case c == "upper" || c == "lower" || c == "e":
				var res []*State
				for _, y := range p.partition(x, sym, func(r rune) string { return fmt.Sprint(unicode.IsUpper(r)) }) {
					up := y.class == "true"
					res = append(res, p.eat(y.st, 1, func(g *ghost) {
						g.mode, g.upper, g.hyphen, g.text = "word", up, false, []*Term{runeStr(sym)}
					})...)
				}
				return res, true
			case c == "digit" || c == "dirty":
				return p.eat(x, 1, func(g *ghost) {
					g.mode, g.dirty, g.text = "number", c == "dirty", []*Term{runeStr(sym)}
				}), true
			case strings.HasPrefix(c, "single "):
				return p.end(x, singleSymbols[rune(c[7])], "'"+c[7:]+"'", 1), true
			case c == "bad":
				return p.doom(x, "C04", "unexpected character"), true
			}
			return p.symbol(x, rune(c[0]), limit, force)
		})
	case "word":
		wordEnd := func(x *State) ([]*State, bool) {
			if g.hyphen {
				return p.doom(x, "C04", "word that ends with a hyphen"), true
			}
			return p.end(x, "", "word", 0), true
		}
		if kind != "rune" {
			return wordEnd(s)
		}
		if !avail && !force {
			return []*State{s}, false
		}
		return each(func(r rune) string {
			switch {
			case r == '-':
				return "-"
			case isWordChar(r):
				return "char"
			}
			return "end"
		}, func(c string, x *State) ([]*State, bool) {
			if c == "end" {
				return wordEnd(x)
			}
			if !avail {
				return more("a word")
			}
			if c == "-" && g.hyphen {
				return p.doom(x, "C04", "word with two hyphens in a row"), true
			}
			sym := x.stream.elem(x.gh.sp)
			return p.eat(x, 1, func(g *ghost) {
				g.hyphen = c == "-"
				g.text = append(append([]*Term{}, g.text...), runeStr(sym))
			}), true
		})
	case "number":
		numEnd := func(x *State) ([]*State, bool) {
			if g.dirty {
				return p.doom(x, "C04", "number with digits that are not ASCII"), true
			}
			return p.end(x, "NUMBER", "number", 0), true
		}
		if kind != "rune" {
			return numEnd(s)
		}
		if !avail && !force {
			return []*State{s}, false
		}
		return each(func(r rune) string {
			switch {
			case r >= '0' && r <= '9':
				return "digit"
			case unicode.IsDigit(r):
				return "dirty"
			}
			return "end"
		}, func(c string, x *State) ([]*State, bool) {
			if c == "end" {
				return numEnd(x)
			}
			if !avail {
				return more("a number")
			}
			sym := x.stream.elem(x.gh.sp)
			return p.eat(x, 1, func(g *ghost) {
				g.dirty = g.dirty || c == "dirty"
				g.text = append(append([]*Term{}, g.text...), runeStr(sym))
			}), true
		})
	case "line":
		if !avail {
			if force {
				return more("a comment")
			}
			return []*State{s}, false
		}
		return each(func(r rune) string {
			switch {
			case isNL(r):
				return "nl"
			case r == '-':
				return "-"
			}
			return ""
		}, func(c string, x *State) ([]*State, bool) {
			return p.eat(x, 1, func(g *ghost) {
				switch {
				case c == "nl" || c == "-" && g.prev == '-':
					g.mode, g.prev, g.lastNum = "start", 0, false
					if c == "nl" {
						p.reached["line comment ended by the line"]++
					} else {
						p.reached["line comment ended by hyphens"]++
					}
				case c == "-":
					g.prev = '-'
				default:
					g.prev = 0
				}
			}), true
		})
	case "block":
		if !avail {
			if force {
				return more("a comment")
			}
			return []*State{s}, false
		}
		return each(func(r rune) string {
			if r == '/' || r == '*' {
				return string(r)
			}
			return ""
		}, func(c string, x *State) ([]*State, bool) {
			return p.eat(x, 1, func(g *ghost) {
				switch {
				case c == "*" && g.prev == '/':
					g.depth, g.prev = tBin("+", g.depth, tInt(1)), 0
					p.reached["nested block comment opened"]++
				case c == "/" && g.prev == '*':
					g.depth, g.prev = tBin("+", g.depth, tInt(-1)), 0
					if d := g.depth; d.Op == OpBin {
						if k, ok := d.Args[1].intVal(); ok && p.dmin(d.Args[0])+k <= 0 {
							p.in.fail("nesting depth %s", d)
						}
					}
					if n, ok := g.depth.intVal(); ok && n == 0 {
						g.mode, g.lastNum, g.depth = "start", false, nil
						p.reached["block comment ended"]++
					}
				case c != "":
					g.prev = rune(c[0])
				default:
					g.prev = 0
				}
			}), true
		})
	}
	p.in.fail("mode %s", g.mode)
	return nil, false
}

// symbol decides what a symbol is that can start longer ones.
func (p *product) symbol(s *State, c rune, limit int, force bool) ([]*State, bool) {
	g := s.gh
	kind, split := p.look(s, 1, force)
	if split != nil {
		return split, true
	}
	if kind == "" {
		return []*State{s}, false
	}
	single := func(x *State) ([]*State, bool) {
		if c == '/' {
			return p.doom(x, "C04", "unexpected character"), true
		}
		return p.end(x, singleSymbols[c], "'"+string(c)+"'", 1), true
	}
	if kind != "rune" {
		if kind == "err" {
			return p.doom(s, "C01", "read error"), true
		}
		return single(s)
	}
	second := map[rune]rune{'-': '-', '/': '*', ':': ':', '.': '.', '[': '[', ']': ']'}[c]
	var res []*State
	ag := false
	add := func(r []*State, a bool) {
		res = append(res, r...)
		ag = ag || a
	}
	for _, y := range p.partition(s, s.stream.elem(g.sp+1), func(r rune) string { return fmt.Sprint(r == second) }) {
		x := y.st
		if y.class == "false" {
			add(single(x))
			continue
		}
		switch c {
		case '-', '/':
			if g.sp+2 > limit {
				if force {
					p.viol("C05", "exact consumption", p.curName(), "opening of a comment", token.NoPos, "the characters that open a comment are delivered as a token")
					add(nil, true)
				} else {
					add([]*State{x}, false)
				}
				continue
			}
			add(p.eat(x, 2, func(g *ghost) {
				g.com, g.prev = true, 0
				if c == '-' {
					g.mode = "line"
				} else {
					g.mode, g.depth = "block", tInt(1)
				}
			}), true)
		case '[':
			add(p.end(x, "LEFT_VERSION_BRACKETS", "'[['", 2), true)
		case ']':
			add(p.end(x, "RIGHT_VERSION_BRACKETS", "']]'", 2), true)
		case ':', '.':
			k, sp := p.look(x, 2, force)
			if sp != nil {
				add(sp, true)
				continue
			}
			short := func(z *State) ([]*State, bool) {
				if c == '.' {
					return p.end(z, "RANGE_SEPARATOR", "'..'", 2), true
				}
				return single(z)
			}
			switch k {
			case "":
				add([]*State{x}, false)
			case "rune":
				third := map[rune]rune{':': '=', '.': '.'}[c]
				for _, z := range p.partition(x, x.stream.elem(g.sp+2), func(r rune) string { return fmt.Sprint(r == third) }) {
					if z.class == "false" {
						add(short(z.st))
					} else if c == ':' {
						add(p.end(z.st, "ASSIGNMENT", "'::='", 3), true)
					} else {
						add(p.end(z.st, "ELLIPSIS", "'...'", 3), true)
					}
				}
			case "err":
				add(p.doom(x, "C01", "read error"), true)
			default:
				add(short(x))
			}
		}
	}
	return res, ag
}

func (p *product) advance(s *State, n int) {
	s.gh = s.gh.with(func(g *ghost) {
		a := append([]int{}, g.adv...)
		for i := range a {
			a[i] += n
			if a[i] > 2 {
				a[i] = 2
			}
			if a[i] < -3 {
				a[i] = -3
			}
		}
		g.adv = a
	})
}

func (p *product) pushMark(s *State) {
	s.gh = s.gh.with(func(g *ghost) { g.adv = append(append([]int{}, g.adv...), 0) })
}

func (p *product) popMark(s *State) int {
	n := len(s.gh.adv) - 1
	v := s.gh.adv[n]
	s.gh = s.gh.with(func(g *ghost) { g.adv = append([]int{}, g.adv[:n]...) })
	return v
}

// failed: the reader has reported a failure.
func (p *product) failed(s *State) {
	st := s.stream.clone()
	delete(st.Kinds, st.Pos)
	st.CanUnrd = false
	s.stream = st
	if s.gh.mode != "doom" {
		p.doom(s, "C01", "read error")
	} else if !hasWord(s.gh.need, "C01") {
		s.gh = s.gh.with(func(g *ghost) { g.need += " C01" })
	}
}

// utf8Sizes of a representative.
func utf8Size(r rune) string {
	if r == utf8.RuneError {
		return "3or1"
	}
	return fmt.Sprint(utf8.RuneLen(r))
}

func (p *product) checkReader(st *State, recv *Term, name string) {
	if r := st.snapshot(recv); r != p.reader {
		p.in.fail("%s is called on %s, which is not the reader of the lexer", name, clean(r))
	}
}

// values splits a state so that an integer term that depends on characters is constant.
func (p *product) values(st *State, t *Term) []valState {
	t = st.norm(t)
	if t.isConst() {
		return []valState{{t, st}}
	}
	sym := st.domSym(t)
	if sym == nil {
		return []valState{{t, st}}
	}
	var res []valState
	vals := map[string]*Term{}
	for _, c := range p.partition(st, sym, func(r rune) string {
		v := foldPure(subst(t, map[*Term]*Term{sym: tInt(int64(r))}, map[*Term]*Term{}))
		k := fmt.Sprintf("%09d", v.id)
		vals[k] = v
		return k
	}) {
		res = append(res, valState{vals[c.class], c.st})
	}
	return res
}

// runesOf gives the characters of a text that consists of known ones only.
func runesOf(t *Term) ([]*Term, bool) {
	if s, ok := t.strVal(); ok {
		var rs []*Term
		for _, r := range s {
			rs = append(rs, tInt(int64(r)))
		}
		return rs, true
	}
	if t.Op == OpConv && t.Name == "runestr" {
		return []*Term{t.Args[0]}, true
	}
	if t.Op == OpConcat {
		var rs []*Term
		for _, a := range t.Args {
			r, ok := runesOf(a)
			if !ok {
				return nil, false
			}
			rs = append(rs, r...)
		}
		return rs, true
	}
	return nil, false
}

func isByteOf(t *Term) (sym *Term, k, size int64, ok bool) {
	if t.Op != OpCall || t.Name != "utf8byte" {
		return
	}
	k, _ = t.Args[1].intVal()
	size, _ = t.Args[2].intVal()
	return t.Args[0], k, size, true
}

// model interprets the library functions reading depends on.
func (p *product) model(fr *Frame, st *State, f *ssa.Function, name string, args []*Term, sig *types.Signature, pos token.Pos) ([]Outcome, bool) {
	in := p.in
	switch name {
	case "(*bufio.Reader).ReadRune":
		p.checkReader(st, args[0], name)
		var outs []Outcome
		for _, n := range in.kindAt(st, st.stream.Pos) {
			switch n.stream.Kinds[n.stream.Pos] {
			case "rune":
				s := n.stream.clone()
				r := s.elem(s.Pos)
				s.Pos++
				s.CanUnrd = true
				n.stream = s
				p.advance(n, 1)
				outs = append(outs, ret(n, r, tSymT("size", types.Typ[types.Int]), tNil())...)
			case "eof":
				s := n.stream.clone()
				s.CanUnrd = false
				n.stream = s
				outs = append(outs, ret(n, tInt(0), tInt(0), tEOF())...)
			case "err":
				p.failed(n)
				outs = append(outs, ret(n, tInt(0), tInt(0), tReadErr())...)
			}
		}
		return outs, true
	case "(*bufio.Reader).UnreadRune":
		p.checkReader(st, args[0], name)
		if st.stream.CanUnrd {
			s := st.stream.clone()
			s.Pos--
			s.CanUnrd = false
			st.stream = s
			p.advance(st, -1)
			return ret(st, tNil()), true
		}
		e := tSymT("errInvalidUnreadRune", errType)
		st.assume(tNot(tBin("==", e, tNil())))
		return ret(st, e), true
	case "(*bufio.Reader).Discard":
		p.checkReader(st, args[0], name)
		var outs []Outcome
		for _, v := range p.values(st, args[1]) {
			n, ok := v.v.intVal()
			if !ok {
				in.fail("Discard of %s", v.v)
			}
			cur := []*State{v.st}
			for i := int64(0); i < n; i++ {
				var nx []*State
				for _, c := range cur {
					for _, k := range in.kindAt(c, c.stream.Pos) {
						switch k.stream.Kinds[k.stream.Pos] {
						case "rune":
							for _, a := range p.partition(k, k.stream.elem(k.stream.Pos), func(r rune) string { return fmt.Sprint(r < 128) }) {
								if a.class == "false" {
									if k.gh.mode == "doom" {
										continue
									}
									p.viol("C04 C05", "exact consumption", shortFn(fr.fn), "discard", pos, "a byte of a longer character may be skipped here")
									continue
								}
								s := a.st.stream.clone()
								s.Pos++
								s.CanUnrd = false
								a.st.stream = s
								p.advance(a.st, 1)
								nx = append(nx, a.st)
							}
						case "eof":
							s := k.stream.clone()
							s.CanUnrd = false
							k.stream = s
							outs = append(outs, ret(k, tInt(i), tEOF())...)
						case "err":
							p.failed(k)
							outs = append(outs, ret(k, tInt(i), tReadErr())...)
						}
					}
				}
				cur = nx
			}
			for _, c := range cur {
				outs = append(outs, ret(c, tInt(n), tNil())...)
			}
		}
		return outs, true
	case "(*bufio.Reader).Peek":
		p.checkReader(st, args[0], name)
		n, ok := st.norm(args[1]).intVal()
		if !ok {
			in.fail("Peek of %s", args[1])
		}
		s := st.stream.clone()
		s.CanUnrd = false
		st.stream = s
		return p.peek(st, int(n), 0, nil), true
	case "(*bufio.Reader).Buffered", "(*bufio.Reader).Size":
		return ret(st, tSymT(st.fresh("buffered"), types.Typ[types.Int])), true
	case "unicode/utf8.FullRune", "unicode/utf8.DecodeRune":
		l := args[0]
		if l.Op == OpConv && len(l.Args) == 1 {
			l = l.Args[0]
		}
		if l.Op != OpList || minLen(l) != len(l.Args) {
			break
		}
		full, size, r, certain := false, 0, tInt(utf8.RuneError), true
		if len(l.Args) > 0 {
			e := l.Args[0].Args[0]
			if sym, k, sz, ok := isByteOf(e); ok && k == 0 {
				switch {
				case sz == 1:
					r, size, certain = sym, 1, false
				case len(l.Args) >= int(sz):
					r, size, full = sym, int(sz), true
				default:
					size = 1
				}
			} else {
				full, size, r = true, 1, e
			}
		}
		if name == "unicode/utf8.DecodeRune" {
			return ret(st, r, tInt(int64(size))), true
		}
		if !certain && len(l.Args) >= utf8.UTFMax {
			full, certain = true, true
		}
		if !certain {
			c := tSymT("full"+fmt.Sprint(l.id), types.Typ[types.Bool])
			return ret(st, c), true
		}
		return ret(st, tBool(full)), true
	case "strconv.ParseInt", "strconv.Atoi":
		typ := types.Typ[types.Int]
		if name == "strconv.ParseInt" {
			b, ok1 := args[1].intVal()
			bits, ok2 := args[2].intVal()
			if !ok1 || !ok2 || b != 10 || bits != 0 && bits != 64 {
				break
			}
			typ = types.Typ[types.Int64]
		}
		var outs []Outcome
		for _, s := range p.sync(st, false) {
			g := s.gh
			v := tRes(tCall("strconv.Atoi", args[0]), "0")
			v.Type = typ
			if g.mode != "number" && !(g.mode == "end" || g.mode == "doom") || len(g.text) == 0 || tConcat(g.text...) != s.norm(args[0]) {
				e := tRes(tCall("strconv.Atoi", args[0]), "1")
				e.Type = errType
				outs = append(outs, ret(s, v, e)...)
				continue
			}
			if !g.dirty && g.num != "bad" {
				x := s.clone()
				x.gh = g.with(func(g *ghost) { g.num = "ok" })
				outs = append(outs, ret(x, v, tNil())...)
			}
			if g.num != "ok" {
				s.gh = g.with(func(g *ghost) { g.num = "bad" })
				s.assume(tNot(tBin("==", tAtoiErr(), tNil())))
				outs = append(outs, ret(s, v, tAtoiErr())...)
			}
		}
		return outs, true
	case "strings.HasSuffix", "strings.HasPrefix":
		want, ok := args[1].strVal()
		if !ok {
			break
		}
		ws := []rune(want)
		t := args[0]
		var sg []*Term
		if t.Op == OpConcat {
			sg = t.Args
		} else {
			sg = []*Term{t}
		}
		if len(ws) == 1 && len(sg) > 0 {
			x := sg[len(sg)-1]
			if name == "strings.HasPrefix" {
				x = sg[0]
			}
			if x.Op == OpConv && x.Name == "runestr" {
				return ret(st, tBin("==", x.Args[0], tInt(int64(ws[0])))), true
			}
		}
		if rs, ok := runesOf(t); ok {
			if len(rs) < len(ws) {
				return ret(st, tBool(false)), true
			}
			off := 0
			if name == "strings.HasSuffix" {
				off = len(rs) - len(ws)
			}
			var cs []*Term
			for i, w := range ws {
				cs = append(cs, tBin("==", rs[off+i], tInt(int64(w))))
			}
			return ret(st, tAll(cs...)), true
		}
	}
	return nil, false
}

func tAll(cs ...*Term) *Term {
	var n []*Term
	for _, c := range cs {
		if v, ok := c.boolVal(); ok {
			if !v {
				return tBool(false)
			}
			continue
		}
		n = append(n, c)
	}
	switch len(n) {
	case 0:
		return tBool(true)
	case 1:
		return n[0]
	}
	return mk(Term{Op: OpAnd, Args: n, Type: types.Typ[types.Bool]})
}

// peek collects the bytes of the characters that follow.
func (p *product) peek(st *State, n, i int, acc []*Term) []Outcome {
	if len(acc) >= n {
		return ret(st, tList(acc[:n]...), tNil())
	}
	var outs []Outcome
	pos := st.stream.Pos + i
	for _, k := range p.in.kindAt(st, pos) {
		switch k.stream.Kinds[pos] {
		case "rune":
			sym := k.stream.elem(pos)
			for _, c := range p.partition(k, sym, utf8Size) {
				sizes := []int{int(c.class[0] - '0')}
				// what reads as U+FFFD is that, or one byte that is no text; it stays what it is found to be
				narrow := tSymT(fmt.Sprintf("narrow%d", sym.id), types.Typ[types.Bool])
				if c.class == "3or1" {
					sizes = []int{3, 1}
					if v, known := c.st.decide(narrow); known && v {
						sizes = sizes[1:]
					} else if known {
						sizes = sizes[:1]
					}
				}
				for j, size := range sizes {
					x := c.st
					if j < len(sizes)-1 {
						x = x.clone()
					}
					if len(sizes) == 2 {
						if size == 1 {
							x.assume(narrow)
						} else {
							x.assume(tNot(narrow))
						}
					}
					a := append([]*Term{}, acc...)
					if size == 1 && c.class == "1" {
						a = append(a, tElem(sym))
					} else {
						for b := 0; b < size; b++ {
							a = append(a, tElem(mk(Term{Op: OpCall, Name: "utf8byte", Args: []*Term{sym, tInt(int64(b)), tInt(int64(size))}, Type: types.Typ[types.Byte]})))
						}
					}
					outs = append(outs, p.peek(x, n, i+1, a)...)
				}
			}
		case "eof":
			outs = append(outs, ret(k, tList(acc...), tEOF())...)
		case "err":
			s := k.stream.clone()
			delete(s.Kinds, pos)
			k.stream = s
			if k.gh.mode != "doom" {
				p.doom(k, "C01", "read error")
			} else if !hasWord(k.gh.need, "C01") {
				k.gh = k.gh.with(func(g *ghost) { g.need += " C01" })
			}
			outs = append(outs, ret(k, tList(acc...), tReadErr())...)
		}
	}
	return outs
}

// cases splits on a condition over two characters by grouping the values of one of them.
func (p *product) cases(in *Interp, st *State, c *Term) (t, f []*State, ok bool) {
	if c.dyn == nil || c.dyn.many || len(c.dyn.syms) != 2 {
		return nil, nil, false
	}
	for _, x := range c.dyn.syms {
		if _, ok := st.dom[x]; !ok {
			return nil, nil, false
		}
	}
	if anyTerm(c, func(x *Term) bool { return x.Op == OpConcat || x.Op == OpLookup || x.Op == OpLookupOk }) {
		return nil, nil, false
	}
	if c.Op == OpBin && c.Name == "==" && c.Args[0].Op == OpSym && c.Args[1].Op == OpSym {
		t, f = p.same(st, c.Args[0], c.Args[1])
		return t, f, true
	}
	sym := c.dyn.syms[0]
	resid := map[string]*Term{}
	for _, g := range p.partition(st, sym, func(r rune) string {
		v := foldPure(subst(c, map[*Term]*Term{sym: tInt(int64(r))}, map[*Term]*Term{}))
		k := fmt.Sprintf("%09d", v.id)
		resid[k] = v
		return k
	}) {
		r := resid[g.class]
		if contains(r, sym) {
			return nil, nil, false
		}
		a, b := in.cases(g.st, r)
		t = append(t, a...)
		f = append(f, b...)
	}
	return t, f, true
}

// same compares two characters. The signs are told apart, for letters and digits both results stay possible.
func (p *product) same(st *State, a, b *Term) (t, f []*State) {
	sign := func(r rune) string {
		if r < 128 && !(r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z') {
			return string(r)
		}
		return "other"
	}
	for _, x := range p.partition(st, a, sign) {
		if x.class != "other" {
			for _, y := range p.partition(x.st, b, func(r rune) string { return fmt.Sprint(string(r) == x.class) }) {
				if y.class == "true" {
					t = append(t, y.st)
				} else {
					f = append(f, y.st)
				}
			}
			continue
		}
		for _, y := range p.partition(x.st, b, func(r rune) string { return fmt.Sprint(sign(r) == "other") }) {
			if y.class == "false" {
				f = append(f, y.st)
				continue
			}
			da, db := y.st.dom[a], y.st.dom[b]
			if both := da.and(db); both.size() > 0 {
				s := y.st.clone()
				s.dom[a], s.dom[b] = both, both
				t = append(t, s)
			}
			if rs := da.runes(); da == db && len(rs) == 1 && rs[0] < 128 {
				continue
			}
			f = append(f, y.st)
		}
	}
	return
}

// forget drops what is known of characters that nothing refers to any more.
func (p *product) forget(outs []Outcome, keep map[*Term]bool) {
	for i := range outs {
		o := &outs[i]
		live := map[*Term]bool{}
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if t == nil || seen[t] {
				return
			}
			seen[t] = true
			if t.Op == OpSym {
				live[t] = true
			}
			for _, a := range t.Args {
				walk(a)
			}
		}
		for _, r := range o.Results {
			walk(r)
		}
		for _, h := range o.St.heap {
			walk(h.content)
		}
		g := o.St.gh
		if g != nil {
			for _, t := range g.text {
				walk(t)
			}
			for j := g.sp; j < o.St.stream.Pos; j++ {
				walk(o.St.stream.elem(j))
			}
		}
		str := o.St.stream
		for k := range str.Kinds {
			if k >= str.Pos-1 {
				walk(str.elem(k))
			}
		}
		for k := range o.St.dom {
			if !live[k] && !keep[k] {
				delete(o.St.dom, k)
			}
		}
	}
}

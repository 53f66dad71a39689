package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// The lexer against its specification (C01 to C06), and what the parsing functions make of its result (C01).

func init() {
	register("lexer", "C01 C02 C03 C04 C05 C06", "Abstract interpretation of the lexer in step with a scanner written from the properties, over all texts and all failures of the reader: header states of loops are normalised and explored until no new ones appear, recursive functions by tabulation. At each end of Lex the token, its value and the characters consumed are those of the scanner; a loop state that returns without consumption, a site that can panic, an error that is lost or replaced, and a line that is not the count of line ends are violations.", runLexer)
	register("entry points", "C01 C23 C30", "ParseStream, ParseString and ParseFile are interpreted with the parser replaced by its possible results: what they return is the module and no error, or the error and no module, on every path; the text the lexer gets is the one given; a file that was opened is closed on every path.", runEntry)
}

const reservedWords = `ABSENT ENCODED INTEGER RELATIVE-OID ABSTRACT-SYNTAX END INTERSECTION SEQUENCE ALL ENUMERATED ISO646String SET APPLICATION EXCEPT MAX SIZE AUTOMATIC EXPLICIT MIN STRING BEGIN EXPORTS MINUS-INFINITY SYNTAX BIT EXTENSIBILITY NULL T61String BMPString EXTERNAL NumericString TAGS BOOLEAN FALSE OBJECT TeletexString BY FROM ObjectDescriptor TRUE CHARACTER GeneralizedTime OCTET TYPE-IDENTIFIER CHOICE GeneralString OF UNION CLASS GraphicString OPTIONAL UNIQUE COMPONENT IA5String PATTERN UNIVERSAL COMPONENTS IDENTIFIER PDV UniversalString CONSTRAINED IMPLICIT PLUS-INFINITY UTCTime CONTAINING IMPLIED PRESENT UTF8String DEFAULT IMPORTS PrintableString VideotexString DEFINITIONS INCLUDES PRIVATE VisibleString EMBEDDED INSTANCE REAL WITH ANY DEFINED`

// lexSetup is what the parsing functions hand to the parser.
type lexSetup struct {
	typ     types.Type
	content *Term
	errFld  string
	resFld  string
	rdFld   string
	st      *State
	obj     *Term
	closed  bool
}

func fieldOfType(t types.Type, want string) (string, int) {
	so := structOf(t)
	if so == nil {
		return "", 0
	}
	name, n := "", 0
	for i := 0; i < so.NumFields(); i++ {
		if strings.HasSuffix(types.TypeString(so.Field(i).Type(), nil), want) {
			name = so.Field(i).Name()
			n++
		}
	}
	return name, n
}

// lexerOf describes the lexer that is given to the parser.
func lexerOf(st *State, arg *Term) (lexSetup, error) {
	var l lexSetup
	if arg.Op != OpIface || arg.Args[0].Op != OpObj {
		return l, fmt.Errorf("the lexer given to the parser is not known: %s", clean(arg))
	}
	l.obj = arg.Args[0]
	o := st.heap[l.obj.Obj]
	l.typ, l.content, l.st = o.typ, o.content, st
	var n int
	if l.errFld, n = fieldOfType(l.typ, "error"); n != 1 {
		return l, fmt.Errorf("the lexer has %d fields for an error", n)
	}
	if l.resFld, n = fieldOfType(l.typ, "asn1go.ModuleDefinition"); n != 1 {
		return l, fmt.Errorf("the lexer has %d fields for the module", n)
	}
	if l.rdFld, n = fieldOfType(l.typ, "*bufio.Reader"); n != 1 {
		return l, fmt.Errorf("the lexer has %d buffered readers", n)
	}
	return l, nil
}

// parseRun interprets one of the parsing functions with the parser replaced by what it can end in.
func parseRun(pr *Program, f *ssa.Function, args []*Term) (setup *lexSetup, all []*lexSetup, outs []Outcome, err error) {
	parse := pr.method("", "yyParserImpl", "Parse")
	if parse == nil {
		return nil, nil, nil, fmt.Errorf("the generated parser was not found")
	}
	in := newInterp(pr)
	in.noMerge = true
	in.multi = map[*ssa.Function]func(in *Interp, fr *Frame, st *State, args []*Term, pos token.Pos) []Outcome{}
	in.multi[parse] = func(in *Interp, fr *Frame, st *State, args []*Term, pos token.Pos) []Outcome {
		l, e := lexerOf(st, args[1])
		if e != nil {
			in.fail("%v", e)
		}
		l.st = st.clone()
		l.closed = len(eventsOf(st.events, "call", "(*os.File).Close")) > 0
		setup = &l
		all = append(all, &l)
		st.event(Event{Kind: "call", Name: "parse", Args: args, Pos: pos, Fn: fr.fn})
		var outs []Outcome
		end := func(errv, res *Term, rc int64) {
			s := st.clone()
			o := *s.heap[l.obj.Obj]
			o.content = setField(setField(o.content, l.typ, l.errFld, errv), l.typ, l.resFld, res)
			s.heap[l.obj.Obj] = &o
			s.assume(tNot(tBin("==", tLexErr(), tNil())))
			s.assume(tNot(tBin("==", tModule(), tNil())))
			outs = append(outs, ret(s, tInt(rc))...)
		}
		end(tNil(), tModule(), 0)
		end(tLexErr(), tNil(), 0)
		end(tLexErr(), tNil(), 1)
		end(tLexErr(), tModule(), 0)
		end(tLexErr(), tModule(), 1)
		return outs
	}
	outs, err = in.Run(f, args, newState())
	return
}

func tModule() *Term { return mk(Term{Op: OpSym, Name: "module"}) }

func runEntry(pr *Program, r *Report) {
	sp := pr.SSA[""]
	readerTerm := func(f *ssa.Function) []*Term {
		var as []*Term
		for _, p := range f.Params {
			as = append(as, tSymT(p.Name(), p.Type()))
		}
		return as
	}
	var ref *lexSetup
	for _, name := range []string{"ParseStream", "ParseString", "ParseFile"} {
		f := sp.Func(name)
		if !r.check("C01 C23", "entry point", name, "exists", token.NoPos, f != nil, "the function is gone") {
			continue
		}
		as := readerTerm(f)
		if !r.check("C01 C23", "entry point", name, "takes one argument", f.Pos(), len(as) == 1 && f.Signature.Results().Len() == 2, "signature %s", f.Signature) {
			continue
		}
		l, all, outs, err := parseRun(pr, f, as)
		r.used("C01 C23", f, len(outs))
		if !r.check("C01 C23", "entry point", name, "is understood", f.Pos(), err == nil && l != nil, "the function could not be followed to the parser: %v", err) {
			continue
		}
		if name == "ParseFile" {
			closedAgain(r, f, outs)
		}
		okRes, okText, msg := true, true, ""
		parsed := 0
		for i := range outs {
			o := &outs[i]
			if o.Kind != "ret" || len(o.Results) != 2 {
				okRes, msg = false, "it can end with a "+o.Kind
				continue
			}
			mod, e := o.St.norm(o.Result(0)), o.St.norm(o.Result(1))
			isNil := func(t *Term) (bool, bool) { return o.St.decide(tBin("==", t, tNil())) }
			pe := eventsOf(o.St.events, "call", "parse")
			if len(pe) == 0 {
				n, k := isNil(e)
				m, k2 := isNil(mod)
				if !(k && !n && k2 && m) {
					okRes, msg = false, fmt.Sprintf("without parsing, it returns (%s, %s); that must be an error and no module", clean(mod), clean(e))
				} else if name == "ParseFile" && !anyTerm(e, isOpenError) {
					okRes, msg = false, fmt.Sprintf("without parsing, it returns %s, which is not the error of opening or reading the file", clean(e))
				}
				continue
			}
			parsed++
			if len(pe) > 1 {
				okRes, msg = false, "the parser runs more than once"
				continue
			}
			errv := o.St.load(mk(Term{Op: OpFieldA, Name: l.errFld, Args: []*Term{l.obj}}), errType)
			if errv.Op == OpNil {
				if n, k := isNil(e); !(k && n) || mod != tModule() {
					okRes, msg = false, fmt.Sprintf("after successful parsing it returns (%s, %s), not the module and nil", clean(mod), clean(e))
				}
			} else if m, k := isNil(mod); !(k && m) || e != tLexErr() {
				okRes, msg = false, fmt.Sprintf("after an error it returns (%s, %s), not nil and the error", clean(mod), clean(e))
			}
		}
		r.check("C01 C23", "result", name, "module or error", f.Pos(), okRes && parsed >= 5, "%s", msg)
		// the text, wherever the parser is called from
		given := l
		for _, l := range all {
			rd := l.st.snapshot(tField(l.content, l.rdFld, nil))
			src := (*Term)(nil)
			textOK, textMsg := true, ""
			if rd.Op == OpCall && (rd.Name == "bufio.NewReader" || rd.Name == "bufio.NewReaderSize") {
				src = unwrapIface(rd.Args[0])
				for src.Op == OpCall && src.Name == "bufio.NewReader" {
					src = unwrapIface(src.Args[0])
				}
			}
			switch {
			case src == nil:
				textOK, textMsg = false, "the lexer reads from "+clean(rd)
			case name == "ParseStream":
				textOK = src == as[0]
			case name == "ParseString":
				textOK = src.Op == OpCall && (src.Name == "strings.NewReader" && src.Args[0] == as[0] ||
					(src.Name == "bytes.NewReader" || src.Name == "bytes.NewBuffer") && src.Args[0].Op == OpConv && src.Args[0].Args[0] == as[0]) ||
					src.Op == OpPtr && src.Args[0].Op == OpCall && src.Args[0].Name == "buffer" && (src.Args[0].Args[0] == as[0] || src.Args[0].Args[0].Op == OpConv && src.Args[0].Args[0].Args[0] == as[0])
			case name == "ParseFile":
				opened := func(t *Term, fn string) bool {
					return t.Op == OpRes && t.Name == "0" && t.Args[0].Op == OpCall && t.Args[0].Name == fn && len(t.Args[0].Args) > 0 && t.Args[0].Args[0] == as[0]
				}
				textOK = opened(src, "os.Open") || opened(src, "os.OpenFile") && onlyReads(src)
				if src.Op == OpCall && len(src.Args) == 1 && (src.Name == "bytes.NewReader" || src.Name == "strings.NewReader") {
					x := src.Args[0]
					if x.Op == OpConv {
						x = x.Args[0]
					}
					textOK = textOK || opened(x, "os.ReadFile")
				}
			}
			if x := readFrom(src); textOK && name == "ParseFile" && x != nil {
				if is, known := l.st.decide(tBin("==", tRes(x.Args[0], "1"), tNil())); !known || !is {
					textOK, textMsg = false, "the file is parsed also if it could not be opened or read"
				}
			}
			if textOK && l.closed {
				textOK, textMsg = false, "the file is closed before it is parsed"
			} else if !textOK && textMsg == "" {
				textMsg = "the lexer reads from " + clean(rd)
			}
			if textOK {
				textMsg = touched(l, rd, src)
				textOK = textMsg == ""
			}
			if textOK && (l.content != given.content && setField(l.content, l.typ, l.rdFld, tNil()) != setField(given.content, given.typ, given.rdFld, tNil())) {
				textOK, textMsg = false, "the lexer starts in different states"
			}
			if !textOK {
				okText, msg = false, textMsg
			}
		}
		r.check("C01 C23", "text", name, "is the one given", f.Pos(), okText, "%s", msg)
		// the lexer starts alike
		c := l.content
		if name == "ParseStream" {
			ref = l
			continue
		}
		if ref != nil {
			same := types.Identical(ref.typ, l.typ)
			if same {
				a := setField(ref.content, l.typ, l.rdFld, tNil())
				b := setField(c, l.typ, l.rdFld, tNil())
				same = a == b
			}
			r.check("C01", "start", name, "same as ParseStream", f.Pos(), same, "the lexer of %s starts in another state than that of ParseStream: %s", name, clean(l.st.snapshot(c)))
		}
	}
}

// readFrom finds the result of opening or reading a file.
func readFrom(src *Term) (res *Term) {
	if src != nil {
		anyTerm(src, func(x *Term) bool {
			if x.Op == OpRes && x.Name == "0" && x.Args[0].Op == OpCall && strings.HasPrefix(x.Args[0].Name, "os.") {
				res = x
			}
			return res != nil
		})
	}
	return
}

func isOpenError(x *Term) bool {
	return x.Op == OpRes && x.Name == "1" && x.Args[0].Op == OpCall && strings.HasPrefix(x.Args[0].Name, "os.")
}

// closedAgain: every file that was opened on a path is closed when it ends.
func closedAgain(r *Report, f *ssa.Function, outs []Outcome) {
	const P = "C30"
	r.used(P, f, len(outs))
	opened, bad := 0, map[string]bool{}
	whole := false
	for i := range outs {
		o := &outs[i]
		for _, e := range o.St.events {
			if e.Kind != "call" {
				continue
			}
			switch e.Name {
			case "os.ReadFile", "io/ioutil.ReadFile":
				whole = true
			case "os.Open", "os.OpenFile", "os.Create":
				call := e.Res
				if call == nil {
					bad["the file "+e.Name+" gives is not known"] = true
					continue
				}
				if is, known := o.St.decide(tBin("==", tRes(call, "1"), tNil())); known && !is {
					continue
				}
				opened++
				closed := false
				for _, c := range o.St.events {
					if c.Kind == "call" && c.Name == "(*os.File).Close" && len(c.Args) > 0 && c.Args[0] == tRes(call, "0") {
						closed = true
					}
					if c.Kind == "call" && c.Name == "parse" && closed {
						bad["the file is closed before it is parsed"] = true
					}
				}
				if !closed {
					bad[fmt.Sprintf("a path that returns (%s, %s) leaves the file open", clean(o.Result(0)), clean(o.Result(1)))] = true
				}
			}
		}
	}
	msgs := []string{}
	for m := range bad {
		msgs = append(msgs, m)
	}
	sort.Strings(msgs)
	r.check(P, "closed", "ParseFile", "on every path", f.Pos(), len(bad) == 0, "%s", strings.Join(msgs, "; "))
	r.check(P, "closed", "ParseFile", "opening was met", f.Pos(), opened > 0 || whole, "no path opens the file")
}

// touched: what is done to the input before it is parsed, apart from opening it.
func touched(l *lexSetup, parts ...*Term) string {
	for _, e := range l.st.events {
		if e.Kind == "panicsite" || e.Name == "bufio.NewReaderSize" {
			continue
		}
		for _, a := range e.Args {
			if anyTerm(a, func(t *Term) bool {
				for _, p := range parts {
					if t == p && t != nil {
						return true
					}
				}
				return false
			}) {
				return e.Name + " uses the input before it is parsed"
			}
		}
	}
	return ""
}

func onlyReads(t *Term) bool {
	n, ok := t.Args[0].Args[1].intVal()
	return ok && n == 0
}

func unwrapIface(t *Term) *Term {
	for t.Op == OpIface {
		t = t.Args[0]
	}
	return t
}

type lexRun struct {
	pr     *Program
	r      *Report
	p      *product
	in     *Interp
	set    *lexSetup
	lexF   *ssa.Function
	errF   *ssa.Function
	lvalT  types.Type
	words  map[string]*Term
	viols  map[string]bool
	tokRev map[int64]string
}

// runLexer first explores with what was looked ahead at forgotten between tokens; where that does not settle it, with nothing forgotten.
func runLexer(pr *Program, r *Report) {
	start := time.Now()
	defer func() { pr.deadline = time.Time{} }()
	pr.deadline = start.Add(300 * time.Second)
	first := newReport(pr)
	ok := func() (ok bool) {
		defer func() {
			if e := recover(); e != nil {
				ok = false
			}
		}()
		runLexerWith(pr, first, true)
		return true
	}()
	done := ok
	for _, os := range first.obls {
		for _, o := range os {
			ok = ok && o.OK
		}
	}
	if ok {
		r.merge(first, nil)
		return
	}
	// what the coarse run shows is so; the other properties are decided by one that keeps what was looked at
	debugf("RETRY")
	clean := map[string]bool{}
	for id, os := range first.obls {
		clean[id] = done
		for _, o := range os {
			clean[id] = clean[id] && o.OK
		}
	}
	second := newReport(pr)
	pr.deadline = start.Add(600 * time.Second)
	var failed interface{}
	func() {
		defer func() { failed = recover() }()
		runLexerWith(pr, second, false)
	}()
	if failed != nil {
		for _, id := range strings.Fields(lexProps) {
			if !clean[id] {
				msg := failed
				if u, ok := failed.(undecided); ok {
					msg = u.msg
				}
				r.check(id, "analysis", "lexer", "completes", token.NoPos, false, "the analysis did not come to an end, nothing is known about the property: %v", msg)
			}
		}
	}
	r.merge(first, func(id string) bool { return clean[id] })
	r.merge(second, func(id string) bool { return !clean[id] })
}

const lexProps = "C01 C02 C03 C04 C05 C06"

func runLexerWith(pr *Program, r *Report, coarse bool) {
	const props = lexProps
	ps := pr.SSA[""].Func("ParseStream")
	if ps == nil {
		r.check(props, "lexer", "ParseStream", "exists", token.NoPos, false, "the function is gone")
		return
	}
	set, all, _, err := parseRun(pr, ps, []*Term{tSymT("reader", ps.Params[0].Type())})
	if err != nil || set == nil {
		r.check(props, "lexer", "ParseStream", "is understood", ps.Pos(), false, "the lexer given to the parser is not known: %v", err)
		return
	}
	for _, l := range all {
		rd := l.st.snapshot(tField(l.content, l.rdFld, nil))
		why := touched(l, rd, tSymT("reader", ps.Params[0].Type()))
		if why == "" && setField(l.content, l.typ, l.rdFld, tNil()) != setField(set.content, set.typ, set.rdFld, tNil()) {
			why = "the lexer starts in different states"
		}
		if why != "" {
			r.check(props, "lexer", "ParseStream", "reads all of the input", ps.Pos(), false, "%s", why)
			return
		}
	}
	L := &lexRun{pr: pr, r: r, set: set, viols: map[string]bool{}, words: map[string]*Term{}, tokRev: map[int64]string{}}
	ptr := types.NewPointer(set.typ)
	ms := pr.Prog.MethodSets.MethodSet(ptr)
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "Lex":
			L.lexF = pr.Prog.MethodValue(ms.At(i))
		case "Error":
			L.errF = pr.Prog.MethodValue(ms.At(i))
		}
	}
	if L.lexF == nil || L.errF == nil || len(L.lexF.Params) != 2 {
		r.check(props, "lexer", shortType(set.typ), "methods", ps.Pos(), false, "methods Lex and Error were not found")
		return
	}
	lp, ok := L.lexF.Params[1].Type().Underlying().(*types.Pointer)
	if !ok {
		r.check(props, "lexer", shortFn(L.lexF), "parameter", ps.Pos(), false, "Lex takes no value to fill in")
		return
	}
	L.lvalT = lp.Elem()
	tok := map[string]*Term{}
	names := []string{"EXPONENT", "NUMBER", "TYPEORMODULEREFERENCE", "VALUEIDENTIFIER", "ASSIGNMENT", "RANGE_SEPARATOR", "ELLIPSIS", "LEFT_VERSION_BRACKETS", "RIGHT_VERSION_BRACKETS"}
	for _, n := range singleSymbols {
		names = append(names, n)
	}
	for _, w := range strings.Fields(reservedWords) {
		names = append(names, strings.ReplaceAll(w, "-", "_"))
	}
	sort.Strings(names)
	used := map[int64]string{}
	for _, n := range names {
		t := pr.konst("", n)
		if !r.check("C04", "token constant", n, "exists", token.NoPos, t != nil, "there is no token %s", n) {
			return
		}
		tok[n] = t
		v, _ := t.intVal()
		r.check("C04", "token constant", n, "is its own", token.NoPos, used[v] == "", "tokens %s and %s are the same", n, used[v])
		used[v] = n
	}
	L.tokRev = used
	for _, w := range strings.Fields(reservedWords) {
		L.words[w] = tok[strings.ReplaceAll(w, "-", "_")]
	}
	in := newInterp(pr)
	in.limit = 5000000
	p := &product{coarse: coarse, in: in, lexType: set.typ, errFld: set.errFld, tokens: tok, reached: map[string]int{}, rec: map[*ssa.Function]bool{},
		table: map[string]*recEntry{}, consts: map[*Term]bool{}, depths: map[*Term]int64{}, lockst: map[string]map[string][2]int64{}, calls: map[[2]string]int{}}
	in.prod = p
	L.in, L.p = in, p
	p.viol = func(props, rule, subject, item string, pos token.Pos, format string, args ...interface{}) {
		k := props + "|" + rule + "|" + subject + "|" + item
		if L.viols[k] {
			return
		}
		L.viols[k] = true
		// what is wrong can go wrong in ever more ways
		if d := time.Now().Add(60 * time.Second); d.Before(pr.deadline) {
			pr.deadline = d
		}
		debugf("VIOL %s: %s", k, fmt.Sprintf(format, args...))
		r.check(props, rule, subject, item, pos, false, format, args...)
	}
	for _, t := range []*Term{tEOF(), tReadErr(), tLexErr(), tAtoiErr(), tSymT("size", types.Typ[types.Int]), tSymT("n", types.Typ[types.Int]), tSymT("errInvalidUnreadRune", errType), tSym("io.EOF"), tSymT("message", types.Typ[types.String]), tSymT("⊤line", types.Typ[types.Int])} {
		p.consts[t] = true
	}
	anyTerm(set.content, func(x *Term) bool {
		if x.Op == OpSym {
			p.consts[x] = true
		}
		return false
	})
	p.reader = set.st.snapshot(tField(set.content, set.rdFld, nil))
	if p.reader.Op != OpCall || !strings.HasPrefix(p.reader.Name, "bufio.NewReader") {
		r.check(props, "lexer", shortType(set.typ), "reader", ps.Pos(), false, "the lexer reads from %s", clean(p.reader))
		return
	}
	// fields the line in errors is made of
	content := set.st.snapshot(set.content)
	var ints []string // paths of the integers in the lexer
	intType := map[string]types.Type{}
	var findInts func(path string, so *types.Struct)
	findInts = func(path string, so *types.Struct) {
		for i := 0; so != nil && i < so.NumFields(); i++ {
			n, ft := path+so.Field(i).Name(), so.Field(i).Type()
			if b, ok := ft.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				ints = append(ints, n)
				intType[n] = ft
			} else if _, ok := ft.Underlying().(*types.Struct); ok {
				findInts(n+".", structOf(ft))
			}
		}
	}
	findInts("", structOf(set.typ))
	var change func(c *Term, typ types.Type, path []string, f func(old *Term) *Term) *Term
	change = func(c *Term, typ types.Type, path []string, f func(old *Term) *Term) *Term {
		if len(path) == 0 {
			return f(c)
		}
		ft := fieldType(typ, path[0])
		return setField(c, typ, path[0], change(tField(c, path[0], ft), ft, path[1:], f))
	}
	lineFlds := map[string]bool{}
	start := func(sub func(name string, old *Term) *Term) *State {
		s := newState()
		s.prod = p
		c := content
		for _, n := range ints {
			c = change(c, set.typ, strings.Split(n, "."), func(old *Term) *Term { return sub(n, old) })
		}
		s.heap[1] = &heapObj{typ: set.typ, content: c, fresh: true}
		s.nextObj = 2
		for _, l := range []*Term{tNot(tBin("==", tReadErr(), tNil())), tNot(tBin("==", tReadErr(), tEOF())), tNot(tBin("==", tEOF(), tNil())), tNot(tBin("==", tLexErr(), tNil())), tNot(tBin("==", tAtoiErr(), tNil()))} {
			s.assume(l)
		}
		s.gh = &ghost{mode: "start", lines: tSymT("λ", types.Typ[types.Int])}
		s.stream.Epoch = "in"
		return s
	}
	p.probe = func(v *Term) {
		for _, n := range ints {
			if contains(v, tSymT("field."+n, intType[n])) {
				lineFlds[n] = true
			}
		}
	}
	ps0 := start(func(n string, old *Term) *Term { return tSymT("field."+n, intType[n]) })
	if _, err := in.Run(L.errF, []*Term{tObj(1), tSymT("message", types.Typ[types.String])}, ps0); err != nil {
		r.check(props, "lexer", shortFn(L.errF), "is understood", L.errF.Pos(), false, "%v", err)
		return
	}
	p.probe = nil
	var lf []string
	for n := range lineFlds {
		lf = append(lf, n)
	}
	sort.Strings(lf)
	r.check("C06", "line of errors", shortFn(L.errF), "line field", L.errF.Pos(), len(lf) == 1, "the text of errors is made of the integer fields %v of the lexer, not of one that holds the line", lf)
	init := start(func(n string, old *Term) *Term {
		if lineFlds[n] {
			return tBin("+", tSymT("λ", types.Typ[types.Int]), old)
		}
		return old
	})
	L.explore(init)
	if p.spins() {
		p.viol("C02", "progress", "lexer", "recursion", token.NoPos, "functions of the lexer can call themselves without having consumed input")
	}
	for _, f := range pr.reachable(L.lexF, L.errF) {
		r.used(props, f, 0)
	}
	for _, id := range strings.Fields(props) {
		r.paths[id] += in.paths
	}
	// nothing is left out
	for _, n := range names {
		r.check("C04", "token delivered", n, "met in some path", L.lexF.Pos(), p.reached["token "+n] > 0, "no path of the lexer delivers the token")
	}
	for _, w := range []string{"line comment ended by the line", "line comment ended by hyphens", "block comment ended", "nested block comment opened", "error: block comment that is not closed"} {
		r.check("C05", "comment", w, "met in some path", L.lexF.Pos(), p.reached[w] > 0, "no path of the lexer gets there")
	}
	for _, w := range []string{"token 0", "error: read error", "error recorded"} {
		r.check("C01", "error", w, "met in some path", L.lexF.Pos(), p.reached[w] > 0, "no path of the lexer gets there")
	}
	for _, w := range []string{"error: word that ends with a hyphen", "error: word with two hyphens in a row", "error: unexpected character", "error: number that does not fit"} {
		r.check("C04", "error", w, "met in some path", L.lexF.Pos(), p.reached[w] > 0, "no path of the lexer gets there")
	}
	r.check("C06", "line of errors", shortFn(L.errF), "met in some path", L.errF.Pos(), p.reached["line of an error"] > 0, "no error is recorded on any path")
	for _, id := range []string{"C02", "C03"} {
		for _, f := range pr.reachable(L.lexF, L.errF) {
			what := "loops and recursion consume input"
			if id == "C03" {
				what = "no site that can panic"
			}
			bad := false
			for k := range L.viols {
				if strings.HasPrefix(k, id+"|") && strings.Contains(k, "|"+shortFn(f)+"|") {
					bad = true
				}
			}
			if !bad {
				r.check(id, "lexer", shortFn(f), what, f.Pos(), true, "")
			}
		}
	}
}

// explore runs the lexer from every state it can be called in.
func (L *lexRun) explore(init *State) {
	p, in := L.p, L.in
	sc := scope{ep: "b", prot: map[*Term]bool{}, objs: map[int]bool{1: true}, next: 2, base: init}
	type at struct {
		st   *State
		done bool
	}
	index := map[string][]*at{}
	total := 0
	var work []*at
	wide := map[string]map[int]bool{}
	arrive := func(s *State) {
		bs, _ := p.splitBools(s, nil)
		for _, b := range bs {
			n := p.norm(b, nil, sc)
			n.widen(wide, "b", nil)
			p.forgetAhead(&n, sc.prot)
			if n.st.gh.mode == "doom" {
				// only the end is waited for
				for k := range n.st.stream.Kinds {
					if k >= n.st.stream.Pos {
						delete(n.st.stream.Kinds, k)
					}
				}
				for k := range n.st.dom {
					n.st.dom[k] = allRunes()
				}
			}
			k := n.core(0)
			known := false
			for _, x := range index[k] {
				c, j := covers(n.st.dom, x.st.dom)
				if c {
					known = true
					break
				}
				if j != nil && !x.done {
					x.st.dom = j
					known = true
					break
				}
			}
			if !known {
				x := &at{st: n.st}
				index[k] = append(index[k], x)
				work = append(work, x)
				total++
				if total > 2000 {
					in.fail("the lexer can be called in too many states")
				}
			}
		}
	}
	arrive(init.clone())
	for len(work) > 0 {
		work[len(work)-1].done = true
		b := work[len(work)-1].st
		work = work[:len(work)-1]
		debugf("LEX %s", func() string { n := normal{st: b}; return n.key(0) }())
		// a token is asked for
		s := b.clone()
		lv := s.alloc(L.lvalT, L.leftover())
		p.pushMark(s)
		p.cur = L.lexF
		for _, o := range in.runFunc(L.lexF, []*Term{tObj(1), lv}, nil, s, nil) {
			switch o.Kind {
			case "ret":
			case "panic":
				continue // reported where it happens
			default:
				p.viol("C01", "returns", shortFn(L.lexF), o.Kind, o.Pos, "the program is ended while input is read")
				continue
			}
			for _, x := range p.sync(o.St, true) {
				for _, n := range L.check(x, o.Results[0], lv) {
					arrive(n)
				}
			}
		}
		// the parser reports a syntax error
		s = b.clone()
		p.pushMark(s)
		p.cur = L.errF
		for _, o := range in.runFunc(L.errF, []*Term{tObj(1), tSymT("message", types.Typ[types.String])}, nil, s, nil) {
			if o.Kind != "ret" {
				continue
			}
			for _, x := range p.sync(o.St, false) {
				if !L.errSet(x) {
					p.viol("C01", "error recorded", shortFn(L.errF), "syntax error", L.errF.Pos(), "an error reported by the parser is not recorded")
					continue
				}
				p.reached["error recorded"]++
				if x.stream.Pos != b.stream.Pos {
					p.viol("C04", "exact consumption", shortFn(L.errF), "syntax error", L.errF.Pos(), "reporting an error consumes input")
				}
				arrive(L.boundary(x, false))
			}
		}
	}
}

func (L *lexRun) field(s *State, name string) *Term {
	o := s.heap[1]
	return s.norm(tField(o.content, name, fieldType(o.typ, name)))
}

func (L *lexRun) errSet(s *State) bool { return L.field(s, L.p.errFld).Op != OpNil }

// boundary is the state between two calls.
func (L *lexRun) boundary(s *State, lastNum bool) *State {
	L.p.popMark(s)
	doomed := L.errSet(s)
	s.gh = s.gh.with(func(g *ghost) {
		*g = ghost{mode: "start", lastNum: lastNum && !doomed, lines: g.lines, cr: g.cr && !(g.mode == "end" && g.endPos > g.sp), sp: s.stream.Pos, adv: g.adv, com: g.com && g.what == "" && !doomed}
		if doomed {
			g.mode = "doom"
		}
	})
	return s
}

// check compares what Lex has returned with what the specification wants.
func (L *lexRun) check(s *State, res, lv *Term) []*State {
	p := L.p
	g := s.gh
	set := L.errSet(s)
	subj := shortFn(L.lexF)
	pos := L.lexF.Pos()
	if g.mode == "doom" {
		if g.need != "" {
			p.reached["error: "+g.why]++
		}
		if g.need != "" && !set {
			props := g.need
			if g.need == "C04" {
				props = "C01 " + g.comProps("C04")
			}
			if g.need == "C05" {
				props = "C01 C05"
			}
			p.viol(props, "error recorded", subj, g.why, pos, "no error is recorded for this: %s", g.why)
			return nil
		}
		if !set {
			return nil // reported before
		}
		// the run has failed, it only has to end
		res = s.norm(res)
		if n, ok := res.intVal(); !(ok && n <= 0) && s.gh.adv[len(s.gh.adv)-1] < 1 {
			p.viol("C02", "progress", subj, "tokens after an error", pos, "after an error, Lex can deliver tokens for ever without consuming input")
		}
		return []*State{L.boundary(s, false)}
	}
	if g.mode != "end" {
		p.in.fail("specification is in mode %s after Lex", g.mode)
	}
	props := g.comProps("C04")
	if s.stream.Pos != g.endPos {
		p.viol(props, "exact consumption", subj, g.what, pos, "%d characters of %s are left over", g.endPos-s.stream.Pos, g.what)
		return nil
	}
	isNum := g.what == "number"
	if isNum {
		switch {
		case g.num == "bad":
			p.reached["error: number that does not fit"]++
			if !set {
				p.viol("C01 C04", "error recorded", subj, "number that does not fit", pos, "no error is recorded for a number that does not fit an integer")
				return nil
			}
			return []*State{L.boundary(s, false)}
		case g.num == "" && !set:
			p.viol("C04", "value of numbers", subj, "number that does not fit", pos, "a number is delivered that has not been checked to fit an integer")
			return nil
		case g.num == "":
			p.viol(props, "token", subj, "number", pos, "an error is reported for a number that may be valid")
			return nil
		}
	}
	if set {
		p.viol(props, "token", subj, "error for "+g.what, pos, "an error is reported for valid text: %s", g.what)
		return nil
	}
	if g.what == "word" {
		if !L.checkWord(s, res, lv, props) {
			return nil
		}
		return []*State{L.boundary(s, false)}
	}
	res = s.norm(res)
	if vs := p.values(s, res); len(vs) == 1 {
		res = vs[0].v
	}
	got, ok := res.intVal()
	want, _ := g.tok.intVal()
	if want == 0 && ok && got <= 0 {
		p.reached["token 0"]++
		return []*State{L.boundary(s, false)}
	}
	if !ok || got != want {
		p.viol(props, "token", subj, g.what, pos, "%s is delivered as %s", g.what, L.tokName(res))
		return nil
	}
	p.reached["token "+L.tokName(res)]++
	if isNum {
		text := tConcat(g.text...)
		a := tRes(tCall("strconv.Atoi", text), "0")
		rep := L.lval(s, lv, "numberRepr")
		val := L.lval(s, lv, "Number")
		for val != nil && val.Op == OpConv && len(val.Args) == 1 && val.Name == "" {
			val = val.Args[0]
		}
		if rep != text {
			p.viol("C04", "value", subj, "spelling of numbers", pos, "a number is delivered with the spelling %s, not its own", cleanT(rep))
		}
		if val != a {
			p.viol("C04", "value", subj, "value of numbers", pos, "a number is delivered with the value %s, not that of its digits", cleanT(val))
		}
	}
	return []*State{L.boundary(s, isNum)}
}

func cleanT(t *Term) string {
	if t == nil {
		return "<missing>"
	}
	return clean(t)
}

func (L *lexRun) tokName(t *Term) string {
	if n, ok := t.intVal(); ok {
		if s := L.tokRev[n]; s != "" {
			return s
		}
		return fmt.Sprint(n)
	}
	return clean(t)
}

// leftover is what the parser hands to Lex: the value of some earlier token is still in it.
func (L *lexRun) leftover() *Term {
	u, ok := L.lvalT.Underlying().(*types.Struct)
	if !ok {
		return zero(L.lvalT)
	}
	var args []*Term
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		args = append(args, tSymT("earlier "+f.Name(), f.Type()))
	}
	return tStruct(L.lvalT, args)
}

func (L *lexRun) lval(s *State, lv *Term, name string) *Term {
	ft := fieldType(L.lvalT, name)
	if ft == nil {
		return nil
	}
	return s.norm(tField(s.heap[lv.Obj].content, name, ft))
}

// checkWord: each reserved word that the text can be, and any other one, gives the right token.
func (L *lexRun) checkWord(s *State, res, lv *Term, props string) bool {
	p, g := L.p, s.gh
	subj, pos := shortFn(L.lexF), L.lexF.Pos()
	text := tConcat(g.text...)
	first, last := g.text[0].Args[0], g.text[len(g.text)-1]
	exact := true
	for _, t := range g.text {
		if t.Op != OpConv {
			exact = false
		}
	}
	test := map[string]bool{}
	for w := range L.words {
		test[w] = true
	}
	collect := func(t *Term) {
		anyTerm(t, func(x *Term) bool {
			if v, ok := x.strVal(); ok && isWord(v) {
				test[v] = true
			}
			return false
		})
	}
	// what the path depends on
	var conds []*Term
	for _, l := range s.lits {
		if contains(l, text) {
			conds = append(conds, l)
			collect(l)
		}
	}
	collect(res)
	name := L.lval(s, lv, "name")
	// eval under text = w; w == "" stands for a word none of the conditions names
	generic := mk(Term{Op: OpSym, Name: "other word", Type: types.Typ[types.String]})
	eval := func(t *Term, w string) *Term {
		v := generic
		if w != "" {
			v = tStr(w)
		}
		m := map[*Term]*Term{text: v}
		if w != "" {
			rs := []rune(w)
			for i, sg := range g.text {
				if sg.Op != OpConv {
					continue
				}
				if exact || i == 0 {
					m[sg.Args[0]] = tInt(int64(rs[i]))
				} else if i == len(g.text)-1 {
					m[sg.Args[0]] = tInt(int64(rs[len(rs)-1]))
				}
			}
		}
		t = subst(t, m, map[*Term]*Term{})
		if w == "" {
			t = notNamed(t, generic)
		}
		return foldPure(t)
	}
	fits := func(w string) bool {
		rs := []rune(w)
		if exact && len(rs) != len(g.text) || !exact && len(rs) < 3 {
			return false
		}
		in := func(sym *Term, r rune) bool {
			if v, ok := sym.intVal(); ok {
				return v == int64(r)
			}
			return s.dom[sym].has(r)
		}
		if exact {
			for i, sg := range g.text {
				if !in(sg.Args[0], rs[i]) {
					return false
				}
			}
			return true
		}
		return in(first, rs[0]) && (last.Op != OpConv || in(last.Args[0], rs[len(rs)-1]))
	}
	ok := true
	run := func(w string) {
		for _, c := range conds {
			v := eval(c, w)
			if b, k := v.boolVal(); k {
				if !b {
					return // not this path
				}
				continue
			}
			p.viol(props, "token", subj, "word", pos, "it could not be decided what token a word becomes: %s", clean(v))
			ok = false
			return
		}
		label := w
		if w == "" {
			label = "a word that is not reserved"
		}
		want := L.words[w]
		named := want == nil || !g.upper
		if named {
			want = p.tokens["VALUEIDENTIFIER"]
			if g.upper {
				want = p.tokens["TYPEORMODULEREFERENCE"]
			}
		}
		got := eval(s.norm(res), w)
		if got != want {
			if got == p.tokens["EXPONENT"] && !hasWord(props, "C04") {
				props += " C04"
			}
			p.viol(props, "token", subj, "word "+w, pos, "%s is delivered as %s, not %s", label, L.tokName(got), L.tokName(want))
			ok = false
			return
		}
		p.reached["token "+L.tokName(want)]++
		if named {
			v := tStr(w)
			if w == "" {
				v = generic
			}
			if name == nil || eval(name, w) != v {
				p.viol(props, "value", subj, "spelling of words", pos, "a word is delivered with the spelling %s, not its own", cleanT(name))
				ok = false
			}
		}
	}
	var ws []string
	for w := range test {
		if fits(w) && unicode.IsUpper([]rune(w)[0]) == g.upper {
			ws = append(ws, w)
		}
	}
	sort.Strings(ws)
	for _, w := range ws {
		run(w)
	}
	run("")
	return ok
}

func isWord(s string) bool {
	for i, r := range s {
		if !isWordChar(r) || i == 0 && !unicode.IsLetter(r) {
			return false
		}
	}
	return s != ""
}

// notNamed: a word that is none of the constants it is compared with, and no key of a table.
func notNamed(t, g *Term) *Term {
	if len(t.Args) == 0 {
		return t
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = notNamed(a, g)
		ch = ch || args[i] != a
	}
	if t.Op == OpBin && t.Name == "==" && (args[0] == g && args[1].Op == OpConst || args[1] == g && args[0].Op == OpConst) {
		return tBool(false)
	}
	if (t.Op == OpLookup || t.Op == OpLookupOk) && args[1] == g && args[0].Op == OpMap && args[0].Name == "known" {
		for i := 0; i < len(args[0].Args); i += 2 {
			if !args[0].Args[i].isConst() || args[0].Args[i].Val.Kind() != constant.String {
				return t
			}
		}
		if t.Op == OpLookupOk {
			return tBool(false)
		}
		if t.Type != nil {
			return zero(t.Type)
		}
	}
	if !ch {
		return t
	}
	return rebuild(t, args)
}

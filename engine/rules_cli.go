package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("cli", "C23", "Every path through the command, with every operation that can fail followed both ways, is replayed as a history of files and streams; rules say what must have happened on a path that ends with status 0 and on one that does not.", runCLI)
}

// asn1goCalls makes calls of the library operations of the world.
func (w *world) asn1goCalls(r *Report, props string) {
	pr := w.pr
	root := pr.pkg("")
	mod := pr.typ("", "ModuleDefinition")
	if mod == nil {
		w.in.fail("type ModuleDefinition was not found")
	}
	parse := func(src func(st *State, t *Term) *Term) func(in *Interp, fr *Frame, st *State, args []*Term, pos token.Pos) []Outcome {
		return func(in *Interp, fr *Frame, st *State, args []*Term, pos token.Pos) []Outcome {
			from := src(st, args[0])
			return w.fork(fr, st, wParse, []*Term{from}, pos,
				func(s *State) []*Term {
					return []*Term{s.alloc(mod, mk(Term{Op: OpCall, Name: "module", Args: []*Term{from}, Type: mod})), tNil()}
				},
				func(_ *State, e *Term) []*Term { return []*Term{tNil(), e} })
		}
	}
	add := func(name string, f func(in *Interp, fr *Frame, st *State, args []*Term, pos token.Pos) []Outcome) {
		if fn := root.Func(name); fn != nil {
			w.in.multi[fn] = f
		} else {
			r.check(props, "anchor", name, "exists", 0, false, "function %s was not found", name)
		}
	}
	add("ParseStream", parse(w.reader))
	add("ParseString", parse(func(st *State, t *Term) *Term {
		t = plainText(st, st.snapshot(t))
		if t.Op == OpCall && t.Name == "all" {
			return t.Args[0]
		}
		return t
	}))
	add("ParseFile", parse(func(st *State, t *Term) *Term { return tFile(t) }))
	add("NewCodeGenerator", func(in *Interp, fr *Frame, st *State, args []*Term, pos token.Pos) []Outcome {
		g := tCall("generator", st.snapshot(args[0]))
		st.suppose(tNot(tBin("==", g, tNil())))
		return ret(st, g)
	})
	base := w.in.ext
	w.in.ext = func(fr *Frame, st *State, name string, args []*Term, sig *types.Signature, pos token.Pos) ([]Outcome, bool) {
		if name != "invoke asn1go.CodeGenerator.Generate" {
			return base(fr, st, name, args, sig, pos)
		}
		m, to := st.snapshot(args[1]), args[2]
		text := mk(Term{Op: OpCall, Name: "code", Args: []*Term{args[0], m}, Type: types.Typ[types.String]})
		part := mk(Term{Op: OpCall, Name: "part of code", Args: []*Term{args[0], m}, Type: types.Typ[types.String]})
		// if it fails, part of the text may have been written
		st2 := st.clone()
		st.event(Event{Kind: "io", Name: wGen, Args: []*Term{args[0], m}, Res: tNil(), Pos: pos, Fn: fr.fn})
		e := w.errOf(st2, wGen)
		st2.event(Event{Kind: "io", Name: wGen, Args: []*Term{args[0], m}, Res: e, Pos: pos, Fn: fr.fn})
		outs, ok := w.write(fr, st, to, text, pos, false)
		bad, ok2 := w.write(fr, st2, to, part, pos, false)
		if !ok || !ok2 {
			w.in.fail("writer given to Generate is not understood: %s", to)
		}
		for i := range bad {
			bad[i].Results = []*Term{e}
		}
		return append(outs, bad...), true
	}
}

// history replays what a path did.
type history struct {
	failed   []Event // operations that failed
	content  map[*Term][]*Term
	unsure   map[*Term]bool // old content may be left at the end
	closed   map[*Term]bool // closed or synchronised without failure
	touched  map[*Term]Event
	order    []*Term
	gen      *Event
	parse    []*Event
	stderr   []*Term
	bad      []Event
	early    []Event // changes of files before the text was generated
	flags    map[string]*Term
	nargs    int64
	parsed   bool
	exists   map[*Term]bool
	loops    []Event
	recovers []Event
}

func replay(es []Event) *history {
	h := &history{content: map[*Term][]*Term{}, unsure: map[*Term]bool{}, closed: map[*Term]bool{}, touched: map[*Term]Event{}, flags: map[string]*Term{}, exists: map[*Term]bool{}, nargs: -1}
	appendTo := map[*Term]bool{}
	trunc := map[*Term]bool{}
	for i := range es {
		e := es[i]
		switch e.Kind {
		case "stderr":
			h.stderr = append(h.stderr, e.Args[0])
		case "bad":
			h.bad = append(h.bad, e)
		case "flag":
			if n, ok := e.Args[0].strVal(); ok {
				h.flags[n] = e.Args[2]
			}
		case "nargs":
			h.nargs, _ = e.Args[0].intVal()
		case "append":
			appendTo[e.Args[0]] = true
		case "exists":
			h.exists[e.Args[0]] = true
		case "loop":
			h.loops = append(h.loops, e)
		case "recover":
			h.recovers = append(h.recovers, e)
		case "go":
			h.bad = append(h.bad, Event{Name: "a goroutine is started", Pos: e.Pos})
		}
		if e.Kind != "io" {
			continue
		}
		ok := e.Res.isNil()
		if !ok {
			h.failed = append(h.failed, e)
		}
		var f *Term
		if len(e.Args) > 0 {
			f = e.Args[0]
		}
		std := f != nil && stdStream(f) != ""
		change := func(f *Term) {
			if _, dup := h.touched[f]; !dup {
				h.order = append(h.order, f)
				h.touched[f] = e
			}
			if h.gen == nil && !std {
				h.early = append(h.early, e)
			}
		}
		switch e.Name {
		case wGen:
			if ok {
				g := e
				h.gen = &g
			}
		case wParse:
			if ok {
				g := e
				h.parse = append(h.parse, &g)
			}
		case wCreate:
			// the file may be emptied even if something fails later
			change(f)
			h.content[f], trunc[f], h.closed[f] = nil, true, false
		case wTrunc:
			change(f)
			if n, isc := e.Args[1].intVal(); !isc || n != 0 {
				h.bad = append(h.bad, Event{Name: "file is truncated to other than zero", Pos: e.Pos})
			}
			if ok {
				if len(h.content[f]) > 0 {
					h.bad = append(h.bad, Event{Name: "file is emptied after it was written", Pos: e.Pos})
				}
				h.content[f], trunc[f] = nil, true
			}
		case wWrite:
			change(f)
			h.closed[f] = false
			if !std && !trunc[f] {
				h.unsure[f] = true
			}
			h.content[f] = append(h.content[f], e.Args[1])
		case wClose, wSync:
			if ok {
				h.closed[f] = true
			}
		case wRemove:
			change(f)
			delete(h.content, f)
		case wRename:
			to := e.Args[1]
			change(to)
			if ok {
				h.content[to], h.closed[to], h.unsure[to] = h.content[f], h.closed[f], h.unsure[f]
				delete(h.content, f)
				delete(h.touched, f)
			}
		case wOther:
			h.bad = append(h.bad, Event{Name: "not understood what the call of " + f.Name + " does to files and streams", Pos: e.Pos})
		}
	}
	return h
}

// says is true if text has something to read in it.
func says(t *Term) bool {
	switch t.Op {
	case OpConst:
		s, ok := t.strVal()
		return !ok || strings.TrimSpace(s) != ""
	case OpConcat:
		for _, a := range t.Args {
			if says(a) {
				return true
			}
		}
		return false
	}
	return true
}

// ioLoops finds operations in loops, which are not followed.
func ioInLoops(l *LoopInfo) []Event {
	var es []Event
	for _, ps := range [][]LoopPath{l.Back, l.Exits} {
		for _, p := range ps {
			for _, e := range p.Events {
				if e.Kind == "io" || e.Kind == "stderr" || e.Kind == "flag" {
					es = append(es, e)
				}
				if e.Loop != nil {
					es = append(es, ioInLoops(e.Loop)...)
				}
			}
		}
	}
	return es
}

func exitCode(o *Outcome) (code int64, known bool) {
	switch o.Kind {
	case "ret":
		return 0, true
	case "panic":
		return 2, true
	}
	n, ok := o.Results[0].intVal()
	return n & 0xff, ok
}

func opName(e Event) string {
	s := e.Name
	if len(e.Args) > 0 && (e.Args[0].Op == OpCall && e.Args[0].Name == "file" || e.Args[0].Op == OpSym) {
		s += " " + strings.TrimPrefix(e.Args[0].String(), "global:")
	}
	return s
}

func histString(es []Event) string {
	var xs []string
	for _, e := range es {
		if e.Kind == "io" {
			s := opName(e)
			if !e.Res.isNil() {
				s += " FAILS"
			}
			xs = append(xs, s)
		}
		if e.Kind == "nargs" {
			xs = append(xs, e.Args[0].String()+" arguments")
		}
	}
	return strings.Join(xs, ", ")
}

// commandRules are the rules that all commands keep: failures are reported.
// It returns the paths that end with status 0.
func commandRules(r *Report, P, subject string, outs []Outcome, tolerated func(o *Outcome, e Event) bool) []*Outcome {
	var good []*Outcome
	panics, recovers := false, token.NoPos
	seen := map[string]bool{}
	once := func(rule, item string, pos token.Pos, ok bool, format string, args ...interface{}) {
		if k := rule + item; ok && seen[k] {
			return
		} else if ok {
			seen[k] = true
		}
		r.check(P, rule, subject, item, pos, ok, format, args...)
	}
	for i := range outs {
		o := &outs[i]
		h := replay(o.St.events)
		for _, b := range h.bad {
			once("understood", "operations", b.Pos, false, "%s; path: %s", b.Name, histString(o.St.events))
		}
		once("understood", "operations", 0, len(h.bad) == 0, "see above")
		for _, l := range h.loops {
			for _, e := range ioInLoops(l.Loop) {
				once("understood", "loops", e.Pos, false, "operation in a loop: %s", e)
			}
		}
		once("understood", "loops", 0, true, "")
		if len(h.recovers) > 0 {
			recovers = h.recovers[0].Pos
		}
		panics = panics || o.Kind == "panic"
		code, known := exitCode(o)
		if !known {
			once("status", "exit status", o.Pos, false, "exit status is not known: %s", o.Results[0])
			continue
		}
		var first *Event
		for k := range h.failed {
			if !tolerated(o, h.failed[k]) {
				first = &h.failed[k]
				break
			}
		}
		if code == 0 {
			good = append(good, o)
			if first != nil {
				once("failure-status", opName(*first), first.Pos, false, "status is 0 although this failed; path: %s", histString(o.St.events))
			}
			continue
		}
		what := "arguments"
		var at token.Pos = o.Pos
		if first != nil {
			what, at = opName(*first), first.Pos
			once("failure-status", what, at, true, "")
		}
		text := o.Kind == "panic"
		for _, t := range h.stderr {
			text = text || says(t)
		}
		once("failure-text", what, at, text, "the command ends with status %d and nothing is said on standard error; path: %s", code, histString(o.St.events))
	}
	r.check(P, "understood", subject, "recovered panics", recovers, !(panics && recovers.IsValid()), "panics are recovered from, their effect is not followed")
	return good
}

// atLeastOne: lists that are never empty. The name of the program is always there, and splitting gives a part.
func atLeastOne(t *Term) bool {
	if isGlobVar(t, "os.Args") {
		return true
	}
	if t.Op == OpCall && (t.Name == "strings.Split" || t.Name == "strings.SplitN" || t.Name == "strings.SplitAfter") {
		sep, ok := t.Args[1].strVal()
		if t.Name == "strings.SplitN" {
			n, known := t.Args[2].intVal()
			ok = ok && known && n != 0
		}
		return ok && sep != ""
	}
	return false
}

// noCrash: nothing on the way can panic, apart from what is meant to.
func noCrash(r *Report, P, S string, f *ssa.Function, outs []Outcome) {
	seen := map[*LoopInfo]bool{}
	bad := map[string]bool{}
	for i := range outs {
		panicSites(outs[i].St.events, seen, func(e Event) {
			if e.Name == "panic" {
				return // how a failure is reported
			}
			if len(e.Args) > 1 && atLeastOne(e.Args[0]) {
				n, ok := e.Args[1].intVal()
				if e.Name == "index" && ok && n == 0 || e.Name == "slice" && ok && n <= 1 && e.Args[2] == tLen(e.Args[0]) {
					return
				}
			}
			k := e.Name + " in " + shortFn(e.Fn)
			if !bad[k] {
				bad[k] = true
				r.check(P, "no crash", S, k, e.Pos, false, "the program can crash here: %s %s", e.Name, cut(fmt.Sprint(e.Args)))
			}
		})
	}
	r.check(P, "no crash", S, "index, conversions and pointers", f.Pos(), len(bad) == 0, "see above")
}

func mainOf(pr *Program, rel string) *ssa.Function {
	if p := pr.SSA[rel]; p != nil {
		return p.Func("main")
	}
	return nil
}

func runCLI(pr *Program, r *Report) {
	const P = "C23"
	f := mainOf(pr, "cmd/asn1go")
	if f == nil {
		r.check(P, "anchor", "cmd/asn1go", "main", 0, false, "the command was not found")
		return
	}
	w := newWorld(pr)
	w.asn1goCalls(r, P)
	st := newState()
	outs, err := w.in.Run(f, nil, st)
	if err != nil {
		r.check(P, "analysis", "cmd/asn1go", "main", f.Pos(), false, "the command can not be decided: %v", err)
		return
	}
	r.used(P, f, len(outs))
	const S = "cmd/asn1go main"
	noCrash(r, P, S, f, outs)
	stdin, stdout := "os.Stdin", "os.Stdout"
	arg := func(o *Outcome, i int64, n int64) (file *Term, empty bool) {
		if n <= i {
			return nil, true
		}
		a := argSym(i)
		v, known := o.St.decide(tBin("==", tLen(a), tInt(0)))
		return tFile(a), known && v
	}
	good := commandRules(r, P, S, outs, func(o *Outcome, e Event) bool {
		// closing what was read, and finding things out, does not matter
		h := replay(o.St.events)
		switch e.Name {
		case wStat:
			return true
		case wClose, wSync:
			if e.Args[0] == nil || stdStream(e.Args[0]) == stdin || stdStream(e.Args[0]) == "os.Stderr" {
				return true
			}
			_, written := h.touched[e.Args[0]]
			return !written || e.Name == wSync && stdStream(e.Args[0]) == stdout
		case wRemove:
			return len(h.content[e.Args[0]]) == 0
		}
		return false
	})
	// what a failure leaves behind
	early := map[string]bool{}
	for i := range outs {
		h := replay(outs[i].St.events)
		for _, e := range h.early {
			if h.gen != nil {
				continue // seen on the path on which it fails
			}
			k := opName(e)
			if !early[k] {
				early[k] = true
				r.check(P, "output-kept", S, k, e.Pos, false, "a file is changed before there is output, and the run fails; path: %s", histString(outs[i].St.events))
			}
		}
	}
	r.check(P, "output-kept", S, "files are changed only when there is output", f.Pos(), len(early) == 0, "see above")
	// paths of success
	shapes := map[string]bool{}
	flagDef := map[string]*Term{}
	for _, o := range good {
		h := replay(o.St.events)
		path := histString(o.St.events)
		say := func(rule, item string, ok bool, format string, args ...interface{}) {
			if ok && shapes[rule+item] {
				return
			}
			if ok {
				shapes[rule+item] = true
			}
			r.check(P, rule, S, item, f.Pos(), ok, format+"; path: "+path, args...)
		}
		for n, d := range h.flags {
			flagDef[n] = d
		}
		if h.nargs < 0 {
			say("arguments", "parsed", false, "arguments are not parsed")
			continue
		}
		say("arguments", "parsed", true, "")
		in, noIn := arg(o, 0, h.nargs)
		out, noOut := arg(o, 1, h.nargs)
		say("input", "parsed once", len(h.parse) == 1, "input is parsed %d times", len(h.parse))
		if len(h.parse) != 1 || h.gen == nil {
			say("output", "generated", h.gen != nil, "status is 0 and nothing was generated")
			continue
		}
		src := h.parse[0].Args[0]
		fromStd := stdStream(src) == stdin
		switch {
		case noIn && in == nil:
			say("input", "standard input when no input is named", fromStd, "input is %s", src)
		case noIn:
			say("input", "empty name", fromStd || src == in, "input is %s", src)
		default:
			say("input", "named file", src == in, "input is %s, not the named file", src)
		}
		// what is generated
		g := h.gen.Args[0]
		say("generate", "module as parsed", h.gen.Args[1].Op == OpCall && h.gen.Args[1].Name == "module" && h.gen.Args[1].Args[0] == src, "what is generated from is not what was parsed: %s", cut(h.gen.Args[1].String()))
		if g.Op == OpCall && g.Name == "generator" {
			for field, flag := range map[string]string{"Package": "package", "IntegerRepr": "default-integer-repr"} {
				v := g.Args[0]
				if v.Op == OpStruct || v.Op == OpSym {
					v = plainText(o.St, tField(v, field, fieldType(pr.typ("", "GenParams"), field)))
				}
				want := tCall("flag", tStr(flag))
				eq := v == want
				if !eq {
					eq, _ = o.St.decide(tBin("==", want, v))
				}
				say("parameters", field, eq, "parameter %s is %s, not what is given by -%s", field, cut(v.String()), flag)
			}
		} else {
			say("parameters", "generator", false, "generator is %s", cut(g.String()))
		}
		// where it went
		code := mk(Term{Op: OpCall, Name: "code", Args: h.gen.Args})
		var target *Term
		var others []*Term
		for _, t := range h.order {
			if _, is := h.touched[t]; !is {
				continue
			}
			isOut := out != nil && t == out && !noOut
			if noOut {
				isOut = stdStream(t) == stdout || out != nil && t == out
			}
			if isOut {
				target = t
			} else if c, left := h.content[t]; left || len(c) > 0 {
				others = append(others, t)
			}
		}
		kind := "standard output"
		if out != nil && !noOut {
			kind = "named file"
		}
		say("output", "nothing else is changed: "+kind, len(others) == 0, "changed: %s", fmtTerms(others))
		if target == nil {
			say("output", kind, false, "status is 0 and the output was not written to %s", kind)
			continue
		}
		var all []*Term
		all = append(all, h.content[target]...)
		text := tConcat(all...)
		say("output", kind, text == code, "what is written is not exactly what was generated: %s", cut(text.String()))
		if target == out {
			say("output", "nothing of older content is left", !h.unsure[target], "the file is written and was not emptied")
			say("output", "closed", h.closed[target], "the file is not closed after it is written, failures to store it are not seen")
			say("output", "is made", !h.exists[target], "the file is opened only if it exists")
		}
		shapes[fmt.Sprintf("shape in=%v out=%v", in != nil && !noIn, out != nil && !noOut)] = true
	}
	for _, s := range []string{"in=false out=false", "in=true out=false", "in=true out=true"} {
		r.check(P, "success", S, s, f.Pos(), shapes["shape "+s], "there is no path on which the command succeeds with input and output named: %s", s)
	}
	for n, d := range map[string]string{"package": "", "default-integer-repr": "int64"} {
		got := flagDef[n]
		ok := got != nil && got == tStr(d)
		r.check(P, "flags", S, n, f.Pos(), ok, "flag -%s is not declared with default %q: %v", n, d, got)
	}
}

package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("tools", "C24", "Paths of the helper functions and of the converter command are replayed as histories of files, streams and programs, every failure followed; the loops of the converter are compared with a traversal of the words after the first of every line.", runTools)
}

func runTools(pr *Program, r *Report) {
	runConverter(pr, r)
	runConvert(pr, r)
	runMarshalToFile(pr, r)
	runRunners(pr, r)
}

// runConverter: the command reads all, converts, writes all.
func runConverter(pr *Program, r *Report) {
	const P, S = "C24", "cmd/ws2bin main"
	f := mainOf(pr, "cmd/ws2bin")
	conv := pr.pkg("internal/utils").Func("ParseWiresharkHex")
	if f == nil || conv == nil {
		r.check(P, "anchor", S, "exists", 0, false, "the command or ParseWiresharkHex was not found")
		return
	}
	w := newWorld(pr)
	w.in.multi[conv] = func(in *Interp, fr *Frame, st *State, args []*Term, pos token.Pos) []Outcome {
		text := plainText(st, st.snapshot(args[0]))
		v := tCall("bytes", mk(Term{Op: OpCall, Name: "converted", Args: []*Term{text}, Type: types.Typ[types.String]}))
		if conv.Signature.Results().Len() == 2 {
			return w.fork(fr, st, "convert", nil, pos, func(*State) []*Term { return []*Term{v, tNil()} }, func(_ *State, e *Term) []*Term { return []*Term{tNil(), e} })
		}
		st2 := st.clone()
		e := w.errOf(st2, "convert")
		st2.event(Event{Kind: "io", Name: "convert", Res: e, Pos: pos, Fn: fr.fn})
		return append(ret(st, v), Outcome{Kind: "panic", Results: []*Term{e}, St: st2, Pos: pos, fr: fr})
	}
	outs, err := w.in.Run(f, nil, newState())
	if err != nil {
		r.check(P, "analysis", S, "main", f.Pos(), false, "the command can not be decided: %v", err)
		return
	}
	r.used(P, f, len(outs))
	noCrash(r, P, S, f, outs)
	good := commandRules(r, P, S, outs, func(o *Outcome, e Event) bool {
		return e.Name == wSync || e.Name == wClose
	})
	r.check(P, "success", S, "possible", f.Pos(), len(good) > 0, "the command never succeeds")
	for _, o := range good {
		h := replay(o.St.events)
		path := histString(o.St.events)
		stdin, stdout := tSym("global:os.Stdin"), tSym("global:os.Stdout")
		want := mk(Term{Op: OpCall, Name: "converted", Args: []*Term{mk(Term{Op: OpCall, Name: "all", Args: []*Term{stdin}})}})
		var got *Term = tStr("")
		var others []*Term
		for _, t := range h.order {
			if t == stdout {
				got = tConcat(h.content[t]...)
			} else if len(h.content[t]) > 0 {
				others = append(others, t)
			}
		}
		r.check(P, "output", S, "all bytes", f.Pos(), got == want, "what is written to standard output is not the conversion of all of standard input: %s; path: %s", cut(got.String()), path)
		r.check(P, "output", S, "nothing else", f.Pos(), len(others) == 0, "written as well: %s", fmtTerms(others))
		reads := 0
		for _, e := range o.St.events {
			if e.Kind == "io" && e.Name == wRead {
				reads++
			}
		}
		r.check(P, "input", S, "read once", f.Pos(), reads == 1, "input is read %d times; path: %s", reads, path)
	}
}

// pieces splits text or bytes into parts that follow each other.
func pieces(t *Term) []*Term {
	switch {
	case t.Op == OpNil:
		return nil
	case t.Op == OpConst:
		if s, ok := t.strVal(); ok && s == "" {
			return nil
		}
	case t.Op == OpConcat || t.Op == OpList:
		var ps []*Term
		for _, a := range t.Args {
			ps = append(ps, pieces(a)...)
		}
		return ps
	case t.Op == OpSpread, t.Op == OpCall && (t.Name == "bytes" || t.Name == "str") && len(t.Args) == 1, t.Op == OpElem, t.Op == OpConv && t.Name == "bytestr":
		return pieces(t.Args[0])
	case t.Op == OpConv && t.Typ != nil && isTextType(t.Typ):
		return pieces(t.Args[0])
	}
	return []*Term{t}
}

// traversal says what a loop goes over: list from an index, one by one.
type traversal struct {
	list, elem, idx *Term
	first           int64
}

func traversalOf(l *LoopInfo) *traversal {
	for name, init := range l.Phis {
		c, ok := init.intVal()
		if !ok {
			continue
		}
		var tr *traversal
		for _, p := range l.Back {
			sym, next := symByName[name], p.Phis[name]
			if sym == nil || next == nil {
				tr = nil
				break
			}
			ok := next == tBin("+", sym, tInt(1))
			if n, isc := next.intVal(); isc {
				ok = hasLit(p.Lits, tBin("==", sym, tInt(n-1)))
			}
			if !ok {
				tr = nil
				break
			}
			var found *traversal
			for _, q := range p.Lits {
				if q.Op != OpBin || q.Name != "<" || q.Args[1].Op != OpLen {
					continue
				}
				for d := int64(0); d <= 1; d++ {
					if q.Args[0] == tBin("+", sym, tInt(d)) || d == 0 && q.Args[0] == sym {
						found = &traversal{list: q.Args[1].Args[0], idx: q.Args[0], first: c + d}
						found.elem = tIndex(found.list, found.idx)
						break
					}
				}
				if found != nil {
					break
				}
			}
			if found == nil || tr != nil && *tr != *found {
				tr = nil
				break
			}
			tr = found
		}
		if tr == nil {
			continue
		}
		// a loop over the rest of a list
		for tr.list.Op == OpSliceX || tr.list.Op == OpCall && tr.list.Name == "slice" {
			lo, ok := tr.list.Args[1].intVal()
			if !ok || len(tr.list.Args) < 3 || tr.list.Args[2] != tLen(tr.list.Args[0]) {
				break
			}
			tr.first += lo
			tr.list = tr.list.Args[0]
		}
		return tr
	}
	return nil
}

// leftEarly is true if a loop was left before all of it was gone through.
func leftEarly(es []Event, l *LoopInfo) bool {
	for _, e := range es {
		if e.Kind == "early" && e.Name == l.Name {
			return true
		}
	}
	return false
}

func loopEvents(es []Event) []*LoopInfo {
	var ls []*LoopInfo
	for _, e := range es {
		if e.Kind == "loop" {
			ls = append(ls, e.Loop)
		}
	}
	return ls
}

func hasLit(lits []*Term, ts ...*Term) bool {
	for _, l := range lits {
		for _, t := range ts {
			if l == t {
				return true
			}
		}
	}
	return false
}

// accOf finds the variable of a loop that grows: its next value starts with itself.
func symNamed(l *LoopInfo, name string) *Term {
	for _, p := range l.Back {
		if v := p.Phis[name]; v != nil {
			var s *Term
			anyTerm(v, func(x *Term) bool {
				if x.Op == OpSym && x.Name == name {
					s = x
				}
				return false
			})
			if s != nil {
				return s
			}
		}
	}
	return nil
}

func samePieces(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// runConvert: the loops of the converter.
func runConvert(pr *Program, r *Report) {
	const P, S = "C24", "ParseWiresharkHex"
	f := pr.pkg("internal/utils").Func("ParseWiresharkHex")
	if f == nil {
		return
	}
	in := newInterp(pr)
	in.noMerge, in.noFold = true, true
	in.opaque = map[*ssa.Function]bool{}
	text := tSymT("$0", types.Typ[types.String])
	outs, err := in.Run(f, []*Term{text}, newState())
	if err != nil {
		r.check(P, "analysis", S, "paths", f.Pos(), false, "can not be decided: %v", err)
		return
	}
	r.used(P, f, len(outs))
	noCrash(r, P, S, f, outs)
	split := func(t *Term, sep string) *Term { return tCall("strings.Split", t, tStr(sep)) }
	rets := 0
	for i := range outs {
		o := &outs[i]
		if o.Kind == "panic" || o.Kind == "exit" {
			code, known := exitCode(o)
			r.check(P, "convert", S, "failure is seen", o.Pos, known && code != 0, "the program ends with status 0")
			continue
		}
		if len(o.Results) == 2 {
			if v, known := o.St.decide(tBin("==", o.Results[1], tNil())); known && !v {
				continue // an error is returned
			}
		}
		rets++
		ls := loopEvents(o.St.events)
		if !r.check(P, "convert", S, "one loop over the lines", f.Pos(), len(ls) == 1, "there are %d loops", len(ls)) {
			continue
		}
		l := ls[0]
		tr := traversalOf(l)
		if !r.check(P, "convert", S, "all lines are gone through", f.Pos(), tr != nil && tr.first == 0 && tr.list == split(text, "\n"), "the loop does not go through the lines of the text one by one: %v", l.Over) {
			continue
		}
		r.check(P, "convert", S, "ends after the last line", f.Pos(), !leftEarly(o.St.events, l), "returns without having gone through all lines, when %v", litStrings(o.Lits()))
		ps := pieces(o.Result(0))
		ok := len(ps) == 1 && ps[0].Op == OpSym && l.Phis[ps[0].Name] != nil && len(pieces(l.Phis[ps[0].Name])) == 0
		if !r.check(P, "convert", S, "result", f.Pos(), ok, "the result is not just what was collected from an empty beginning: %s", cut(o.Result(0).String())) {
			continue
		}
		acc := ps[0]
		for _, p := range l.Back {
			next := pieces(p.Phis[acc.Name])
			words := split(tr.elem, " ")
			cutRest := tRes(tCall("strings.Cut", tr.elem, tStr(" ")), "1")
			found := tRes(tCall("strings.Cut", tr.elem, tStr(" ")), "2")
			firstTwo := tCall("strings.SplitN", tr.elem, tStr(" "), tInt(2))
			inner := loopEvents(p.Events)
			if len(inner) == 0 {
				skip := hasLit(p.Lits, tBin("==", tr.elem, tStr("")), tBin("==", tLen(tr.elem), tInt(0)), tBin("<", tLen(tr.elem), tInt(1)), tBin("<", tLen(words), tInt(2)), tBin("==", tLen(words), tInt(1)), tNot(found), tBin("<", tLen(firstTwo), tInt(2)), tNot(tBin("==", tLen(firstTwo), tInt(2))))
				r.check(P, "convert", S, "line without bytes", f.Pos(), skip && samePieces(next, []*Term{acc}), "a line is left out when %v", litStrings(p.Lits))
				continue
			}
			if !r.check(P, "convert", S, "one loop over the words", f.Pos(), len(inner) == 1, "there are %d loops over a line", len(inner)) {
				continue
			}
			w := inner[0]
			wt := traversalOf(w)
			if !r.check(P, "convert", S, "words are gone through", f.Pos(), wt != nil, "the loop over a line does not go through its words one by one: %v", w.Over) {
				continue
			}
			rest := false // list of words does not have the offset
			ok := wt.list == words
			if wt.list == split(cutRest, " ") || wt.list == split(tIndex(firstTwo, tInt(1)), " ") {
				ok, rest = true, true
			}
			ok = ok && (rest && wt.first == 0 || !rest && wt.first <= 1)
			if !r.check(P, "convert", S, "words after the offset", f.Pos(), ok, "the words gone through are not those after the first: %v from %d", wt.list, wt.first) {
				continue
			}
			r.check(P, "convert", S, "ends after the last word", f.Pos(), !leftEarly(p.Events, w), "the rest of a line is left out when %v", litStrings(p.Lits))
			// what the line adds
			var wacc *Term
			direct := false
			for name, init := range w.Phis {
				s := symNamed(w, name)
				if s == nil {
					continue
				}
				if samePieces(next, []*Term{s}) && samePieces(pieces(init), []*Term{acc}) {
					wacc, direct = s, true
				} else if samePieces(next, []*Term{acc, s}) && len(pieces(init)) == 0 {
					wacc = s
				}
			}
			_ = direct
			if !r.check(P, "convert", S, "bytes of a line are added", f.Pos(), wacc != nil, "what a line adds is not what was collected from its words: %s", cut(fmtTerms(next))) {
				continue
			}
			for _, q := range w.Back {
				wn := pieces(q.Phis[wacc.Name])
				offset := tBin("==", wt.idx, tInt(0))
				if !rest && wt.first == 0 {
					if v, known := q.St.decide(offset); known && v || hasLit(q.Lits, offset) {
						r.check(P, "convert", S, "offset", f.Pos(), samePieces(wn, []*Term{wacc}), "the offset column adds %s", cut(fmtTerms(wn)))
						continue
					}
					v, known := q.St.decide(offset)
					r.check(P, "convert", S, "words after the offset", f.Pos(), known && !v || hasLit(q.Lits, tNot(offset)), "the offset column is taken for a byte")
				}
				if samePieces(wn, []*Term{wacc}) {
					r.check(P, "convert", S, "empty word", f.Pos(), hasLit(q.Lits, tBin("==", wt.elem, tStr("")), tBin("==", tLen(wt.elem), tInt(0)), tBin("<", tLen(wt.elem), tInt(1))), "a word is left out when %v", litStrings(q.Lits))
					continue
				}
				okAdd := len(wn) == 2 && wn[0] == wacc
				why := "what is added is not one byte"
				if okAdd {
					v := wn[1]
					for v.Op == OpConv && len(v.Args) == 1 && v.Typ != nil {
						if b, ok := v.Typ.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
							break
						}
						v = v.Args[0]
					}
					okAdd = v.Op == OpRes && v.Name == "0" && v.Args[0].Op == OpCall && v.Args[0].Name == "strconv.ParseUint"
					why = "what is added is not the number that was read"
					if okAdd {
						c := v.Args[0]
						base, _ := c.Args[1].intVal()
						bits, known := c.Args[2].intVal()
						okAdd = c.Args[0] == wt.elem && base == 16
						why = "the number is not read from the word as hexadecimal: " + c.String()
						if okAdd {
							okAdd = known && bits == 8
							for _, x := range q.Lits {
								// v > 255 does not hold, v < 256 holds
								if x.Op == OpBin && x.Name == "<" && x.Args[0] == v {
									n, isc := x.Args[1].intVal()
									okAdd = okAdd || isc && n <= 256
								}
								if x.Op == OpNot && x.Args[0].Op == OpBin && x.Args[0].Name == "<" && x.Args[0].Args[1] == v {
									n, isc := x.Args[0].Args[0].intVal()
									okAdd = okAdd || isc && n <= 255
								}
							}
							why = "numbers that are not a byte are accepted"
						}
						if okAdd {
							val, known := q.St.decide(tBin("==", tRes(c, "1"), tNil()))
							okAdd = known && val
							why = "a word that is not a number is accepted"
						}
					}
				}
				r.check(P, "convert", S, "byte", f.Pos(), okAdd, "%s: %s when %v", why, cut(fmtTerms(wn)), litStrings(q.Lits))
			}
		}
	}
	r.check(P, "convert", S, "returns", f.Pos(), rets > 0, "there is no path that returns")
}

// errorRules: a function returns an error exactly if something failed.
func errorRules(r *Report, P, S string, f *ssa.Function, outs []Outcome, errAt int, tolerated func(h *history, e Event) bool) (good []*Outcome) {
	for i := range outs {
		o := &outs[i]
		path := histString(o.St.events)
		h := replay(o.St.events)
		for _, b := range h.bad {
			r.check(P, "understood", S, "operations", b.Pos, false, "%s; path: %s", b.Name, path)
		}
		for _, l := range h.loops {
			for _, e := range ioInLoops(l.Loop) {
				r.check(P, "understood", S, "loops", e.Pos, false, "operation in a loop: %s", e)
			}
		}
		if len(h.recovers) > 0 {
			r.check(P, "understood", S, "recovered panics", h.recovers[0].Pos, false, "panics are recovered from, their effect is not followed")
		}
		if !r.check(P, "returns", S, "on every path", o.Pos, o.Kind == "ret", "does not return: %s; path: %s", o.Kind, path) {
			continue
		}
		var first *Event
		for k := range h.failed {
			if !tolerated(h, h.failed[k]) {
				first = &h.failed[k]
				break
			}
		}
		e := o.Results[errAt]
		isNil, known := o.St.decide(tBin("==", e, tNil()))
		e = o.Result(errAt)
		if e.Op == OpCall && (e.Name == "fmt.Errorf" || e.Name == "errors.New") || e.Op == OpIface {
			isNil, known = false, true
		}
		if first == nil {
			if r.check(P, "no-error", S, "no error without failure", f.Pos(), known && isNil, "an error is returned although nothing failed: %s; path: %s", cut(e.String()), path) {
				good = append(good, o)
			}
			continue
		}
		if !r.check(P, "error", S, opName(*first), first.Pos, known && !isNil, "the failure is not returned: %s; path: %s", cut(e.String()), path) {
			continue
		}
		says := false
		for _, x := range h.failed {
			says = says || contains(e, x.Res)
		}
		r.check(P, "error", S, opName(*first)+" says why", first.Pos, says, "the error that is returned does not have the one that was met: %s", cut(e.String()))
	}
	r.check(P, "success", S, "possible", f.Pos(), len(good) > 0, "there is no path on which nothing fails")
	return good
}

func runMarshalToFile(pr *Program, r *Report) {
	const P, S = "C24", "MarshalToFile"
	f := pr.pkg("").Func("MarshalToFile")
	if f == nil {
		r.check(P, "anchor", S, "exists", 0, false, "function was not found")
		return
	}
	w := newWorld(pr)
	var args []*Term
	for i, p := range f.Params {
		args = append(args, tSymT([]string{"$value", "$path", "$mode", "$3", "$4"}[i], p.Type()))
	}
	outs, err := w.in.Run(f, args, newState())
	if err != nil || len(args) != 3 {
		r.check(P, "analysis", S, "paths", f.Pos(), false, "can not be decided: %v", err)
		return
	}
	r.used(P, f, len(outs))
	noCrash(r, P, S, f, outs)
	good := errorRules(r, P, S, f, outs, f.Signature.Results().Len()-1, func(h *history, e Event) bool {
		if e.Name == wClose {
			_, written := h.touched[e.Args[0]]
			return !written
		}
		return e.Name == wStat
	})
	for i := range outs {
		enc := false
		for _, e := range outs[i].St.events {
			if e.Kind == "io" && e.Name == wEncode {
				enc = e.Res.isNil()
			}
			if e.Kind == "io" && !enc && (e.Name == wCreate || e.Name == wTrunc || e.Name == wWrite || e.Name == wRemove || e.Name == wRename) {
				r.check(P, "output", S, "file is not touched when encoding fails", e.Pos, false, "path: %s", histString(outs[i].St.events))
			}
		}
	}
	target := tFile(args[1])
	der := tCall("der", args[0])
	for _, o := range good {
		h := replay(o.St.events)
		path := histString(o.St.events)
		got := tConcat(h.content[target]...)
		r.check(P, "output", S, "content", f.Pos(), got == der, "what is written is not the encoding of the value: %s; path: %s", cut(got.String()), path)
		r.check(P, "output", S, "nothing of older content is left", f.Pos(), !h.unsure[target], "the file is written and was not emptied; path: %s", path)
		r.check(P, "output", S, "is made", f.Pos(), !h.exists[target], "the file is opened only if it exists")
		r.check(P, "output", S, "closed", f.Pos(), h.closed[target], "the file is not closed after it is written, failures to store it are not seen; path: %s", path)
		var mode *Term
		for _, e := range eventsOf(o.St.events, "mode", "") {
			if e.Args[0] == target {
				mode = e.Args[1]
			}
		}
		r.check(P, "output", S, "mode", f.Pos(), mode == args[2], "the file is not made with the mode given but %v; path: %s", mode, path)
		for _, t := range h.order {
			if t != target {
				r.check(P, "output", S, "nothing else is changed", f.Pos(), len(h.content[t]) == 0, "changed: %s", t)
			}
		}
	}
}

// tellsAll: the whole of a text is part of what t says.
func tellsAll(t *Term, sym string) bool {
	switch t.Op {
	case OpSym:
		return t.Name == sym
	case OpConcat, OpIface, OpStruct, OpPtr, OpList, OpSpread:
	case OpConv:
		if t.Typ != nil && !isTextType(t.Typ) && len(t.Args) == 1 && t.Args[0].Op == OpSym {
			return false
		}
	case OpFmt:
		x := t.Args[len(t.Args)-1]
		if x.Op == OpIface && x.Typ != nil {
			if b, ok := x.Typ.Underlying().(*types.Basic); (!ok || b.Info()&types.IsString == 0) && t.Name == "v" && isTextType(x.Typ) {
				return false // bytes as numbers
			}
		}
		if !in1([]rune(t.Name + " ")[0], "svq") {
			return false
		}
	case OpCall:
		if !strings.HasPrefix(t.Name, "fmt.") && !strings.HasPrefix(t.Name, "errors.") && t.Name != "bytes" && t.Name != "str" && !strings.HasPrefix(t.Name, "strings.Trim") && !strings.HasPrefix(t.Name, "bytes.Trim") && t.Name != "strings.ToValidUTF8" {
			return false
		}
	default:
		return false
	}
	for _, a := range t.Args {
		if tellsAll(a, sym) {
			return true
		}
	}
	return false
}

func runRunners(pr *Program, r *Report) {
	const P = "C24"
	none := func(h *history, e Event) bool { return false }
	prep := func(name string) (*ssa.Function, []Outcome, []*Term, bool) {
		f := pr.pkg("internal/utils").Func(name)
		if f == nil {
			r.check(P, "anchor", name, "exists", 0, false, "function was not found")
			return nil, nil, nil, false
		}
		w := newWorld(pr)
		var args []*Term
		for i, p := range f.Params {
			args = append(args, tSymT([]string{"$program", "$arguments", "$2", "$3", "$4"}[i], p.Type()))
		}
		outs, err := w.in.Run(f, args, newState())
		if err != nil || len(args) != 2 {
			r.check(P, "analysis", name, "paths", f.Pos(), false, "can not be decided: %v", err)
			return nil, nil, nil, false
		}
		r.used(P, f, len(outs))
		noCrash(r, P, name, f, outs)
		for i := range outs {
			o := &outs[i]
			cs := eventsOf(o.St.events, "command", "")
			runs := 0
			for _, e := range o.St.events {
				if e.Kind == "io" && e.Name == wRun {
					runs++
				}
			}
			r.check(P, "run", name, "once", f.Pos(), runs == 1, "the program is run %d times; path: %s", runs, histString(o.St.events))
			ok := len(cs) == 1 && cs[0].Args[0] == args[0]
			if ok {
				a := cs[0].Args[1]
				if a.Op == OpList && len(a.Args) == 1 && a.Args[0].Op == OpSpread {
					a = a.Args[0].Args[0]
				}
				ok = a == args[1]
			}
			r.check(P, "run", name, "program and arguments as given", f.Pos(), ok, "something else is run: %v", cs)
		}
		return f, outs, args, true
	}
	if f, outs, _, ok := prep("RunCommandForResult"); ok {
		errorRules(r, P, "RunCommandForResult", f, outs, 0, none)
		for i := range outs {
			o := &outs[i]
			h := replay(o.St.events)
			if len(h.failed) == 0 || o.Kind != "ret" {
				continue
			}
			e := o.Result(0)
			all := tellsAll(e, "output of program") || tellsAll(e, "stdout of program") && tellsAll(e, "stderr of program")
			r.check(P, "error", "RunCommandForResult", "has the output", f.Pos(), all, "the error does not have the output of the program: %s", cut(e.String()))
		}
	}
	if f, outs, _, ok := prep("RunCommand"); ok {
		if f.Signature.Results().Len() != 3 {
			r.check(P, "anchor", "RunCommand", "results", f.Pos(), false, "results are not output, errors and failure")
			return
		}
		errorRules(r, P, "RunCommand", f, outs, 2, none)
		for i := range outs {
			o := &outs[i]
			if o.Kind != "ret" {
				continue
			}
			for k, want := range []string{"stdout of program", "stderr of program"} {
				ps := pieces(o.Result(k))
				r.check(P, "result", "RunCommand", want, f.Pos(), len(ps) == 1 && ps[0].Op == OpSym && ps[0].Name == want, "what is returned is %s; path: %s", cut(o.Result(k).String()), histString(o.St.events))
			}
		}
	}
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The world of a command: what programs of the repository do to files, streams, arguments and other programs.
// Every operation that can fail is followed both ways; what was done is recorded as a sequence of events of
// kind "io": Name is the operation, Args[0] the file (or name) it is about, Args[1] what is written, and Res
// is nil if it succeeded and the error otherwise.

const (
	wRead   = "read"   // all of a file is read
	wOpen   = "open"   // a file is opened, nothing is changed in it
	wCreate = "create" // a file is opened and emptied
	wTrunc  = "trunc"
	wWrite  = "write"
	wClose  = "close"
	wSync   = "sync"
	wRemove = "remove"
	wRename = "rename"
	wParse  = "parse"
	wGen    = "generate"
	wFlags  = "flags"
	wEncode = "encode"
	wRun    = "run"
	wOther  = "other" // not understood
	wStat   = "stat"
)

type world struct {
	pr *Program
	in *Interp
}

func newWorld(pr *Program) *world {
	w := &world{pr: pr, in: newInterp(pr)}
	w.in.ext = w.ext
	w.in.noMerge = true
	w.in.multi = map[*ssa.Function]func(in *Interp, fr *Frame, st *State, args []*Term, pos token.Pos) []Outcome{}
	return w
}

func stripIface(t *Term) *Term {
	for t != nil && t.Op == OpIface {
		t = t.Args[0]
	}
	return t
}

func isGlobVar(t *Term, name string) bool {
	return t.Op == OpSym && t.Name == "global:"+name
}

// stdStream names the standard stream a term is.
func stdStream(t *Term) string {
	t = stripIface(t)
	for _, n := range []string{"os.Stdin", "os.Stdout", "os.Stderr"} {
		if isGlobVar(t, n) {
			return n
		}
	}
	return ""
}

// textOf gives bytes or text as text.
func plainText(st *State, t *Term) *Term {
	for {
		switch {
		case t.Op == OpCall && (t.Name == "bytes" || t.Name == "str") && len(t.Args) == 1:
			t = t.Args[0]
		case t.Op == OpConv && len(t.Args) == 1 && t.Typ != nil && isTextType(t.Typ):
			t = t.Args[0]
		case t.Op == OpList && minLen(t) == len(t.Args) && len(t.Args) == 0:
			return tStr("")
		case t.Op == OpIface:
			t = t.Args[0]
		default:
			return t
		}
	}
}

func isTextType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	return false
}

// reader says what is read from a reader: a file (or standard stream) or a text.
func (w *world) reader(st *State, t *Term) *Term {
	for i := 0; i < 10; i++ {
		t = stripIface(t)
		if t.Op == OpCall && len(t.Args) == 1 {
			switch t.Name {
			case "bufio.NewReader", "strings.NewReader", "bytes.NewReader":
				t = plainText(st, t.Args[0])
				continue
			}
		}
		if t.Op == OpCall && t.Name == "all" {
			return t.Args[0]
		}
		if t.Op == OpObj {
			if b := w.in.bufContent(st, t); b != nil {
				t = plainText(st, b)
				continue
			}
		}
		break
	}
	return t
}

// errOf makes the error of an operation that failed.
func (w *world) errOf(st *State, op string) *Term {
	e := tSymT(st.fresh("error of "+op), errType)
	st.suppose(tNot(tBin("==", e, tNil())))
	return e
}

// fork follows an operation both ways.
func (w *world) fork(fr *Frame, st *State, op string, args []*Term, pos token.Pos, good func(st *State) []*Term, bad func(st *State, e *Term) []*Term) []Outcome {
	st2 := st.clone()
	st.event(Event{Kind: "io", Name: op, Args: args, Res: tNil(), Pos: pos, Fn: fr.fn})
	outs := ret(st, good(st)...)
	name := op
	if len(args) > 0 {
		name += " " + args[0].String()
	}
	e := w.errOf(st2, name)
	st2.event(Event{Kind: "io", Name: op, Args: args, Res: e, Pos: pos, Fn: fr.fn})
	return append(outs, ret(st2, bad(st2, e)...)...)
}

func (w *world) note(fr *Frame, st *State, op string, args []*Term, pos token.Pos) {
	st.event(Event{Kind: "io", Name: op, Args: args, Res: tNil(), Pos: pos, Fn: fr.fn})
}

// justErr is the usual shape of results: an error.
func justErr(fr *Frame) (func(st *State) []*Term, func(st *State, e *Term) []*Term) {
	return func(*State) []*Term { return []*Term{tNil()} }, func(_ *State, e *Term) []*Term { return []*Term{e} }
}

// write is a write of text to a writer. Results are made by res.
func (w *world) write(fr *Frame, st *State, to, text *Term, pos token.Pos, withN bool) ([]Outcome, bool) {
	mkres := func(e *Term) []*Term {
		if withN {
			return []*Term{tSymT("n", types.Typ[types.Int]), e}
		}
		return []*Term{e}
	}
	to = stripIface(to)
	if to.Op == OpObj {
		if c := w.bufioOf(st, to); c != nil {
			w.setBufio(st, to, c.Args[0], tConcat(c.Args[1], text))
			return ret(st, mkres(tNil())...), true
		}
		if w.in.bufAppend(st, to, text) {
			return ret(st, mkres(tNil())...), true
		}
		return nil, false
	}
	if stdStream(to) == "os.Stderr" {
		st.event(Event{Kind: "stderr", Args: []*Term{text}, Pos: pos, Fn: fr.fn})
		return ret(st, mkres(tNil())...), true
	}
	if isGlobVar(to, "io.Discard") || isGlobVar(to, "io/ioutil.Discard") {
		return ret(st, mkres(tNil())...), true
	}
	return w.fork(fr, st, wWrite, []*Term{to, text}, pos,
		func(*State) []*Term { return mkres(tNil()) },
		func(_ *State, e *Term) []*Term { return mkres(e) }), true
}

func (w *world) bufioOf(st *State, p *Term) *Term {
	if id, path, ok := st.resolve(p); ok && len(path) == 0 {
		if c := st.heap[id].content; c.Op == OpCall && c.Name == "bufio" {
			return c
		}
	}
	return nil
}

func (w *world) setBufio(st *State, p, to, text *Term) {
	id, _, _ := st.resolve(p)
	o := *st.heap[id]
	o.content = mk(Term{Op: OpCall, Name: "bufio", Args: []*Term{to, text}, Type: o.typ})
	st.heap[id] = &o
}

// exit ends the program.
func (w *world) exit(st *State, code *Term, pos token.Pos) []Outcome {
	w.in.count()
	return []Outcome{{Kind: "exit", Results: []*Term{code}, St: st, Pos: pos}}
}

func (w *world) spr(st *State, name string, args []*Term) *Term {
	var t *Term
	if strings.HasSuffix(name, "f") {
		t = w.in.sprintf(st, args[0], args[1])
	} else {
		t = w.in.sprint(st, args[0], strings.HasSuffix(name, "ln"))
		if t != nil {
			return t
		}
		if isEmptyList(args[0]) {
			t = tStr("")
		}
	}
	if t == nil {
		var sn []*Term
		for _, a := range args {
			sn = append(sn, st.snapshot(a))
		}
		t = tCall("fmt.Sprint", sn...)
	}
	if strings.HasSuffix(name, "ln") {
		t = tConcat(t, tStr("\n"))
	}
	return t
}

func snapAll(st *State, args []*Term) []*Term {
	var sn []*Term
	for _, a := range args {
		sn = append(sn, st.snapshot(a))
	}
	return sn
}

func tFile(name *Term) *Term { return mk(Term{Op: OpCall, Name: "file", Args: []*Term{name}}) }

// fileFlags of os.OpenFile; values are those of the platform that is analysed.
func (w *world) flagValue(name string) int64 {
	if p := w.pr.Prog.ImportedPackage("os"); p != nil {
		if c, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
			if n, ok := tConst(c.Val(), c.Type()).intVal(); ok {
				return n
			}
		}
	}
	w.in.fail("constant os.%s was not found", name)
	return 0
}

var worldPkgs = map[string]bool{"os": true, "io": true, "io/ioutil": true, "bufio": true, "os/exec": true, "syscall": true, "flag": true, "log": true, "reflect": true, "unsafe": true, "encoding/asn1": true, "os/signal": true}

func pkgOfName(name string) string {
	n := strings.TrimPrefix(strings.TrimPrefix(name, "("), "*")
	if i := strings.LastIndex(n, "/"); i >= 0 {
		if j := strings.Index(n[i:], "."); j >= 0 {
			return n[:i+j]
		}
		return n
	}
	if j := strings.Index(n, "."); j >= 0 {
		return n[:j]
	}
	return n
}

// ext answers calls that leave the repository.
func (w *world) ext(fr *Frame, st *State, name string, args []*Term, sig *types.Signature, pos token.Pos) ([]Outcome, bool) {
	in := w.in
	gE, bE := justErr(fr)
	valErr := func(v func(st *State) *Term) (func(st *State) []*Term, func(st *State, e *Term) []*Term) {
		return func(s *State) []*Term { return []*Term{v(s), tNil()} },
			func(_ *State, e *Term) []*Term { return []*Term{zero(sig.Results().At(0).Type()), e} }
	}
	opened := func(op string, n *Term) []Outcome {
		f := tFile(n)
		g, b := valErr(func(s *State) *Term {
			s.suppose(tNot(tBin("==", f, tNil())))
			return f
		})
		return w.fork(fr, st, op, []*Term{f}, pos, g, b)
	}
	file := func(t *Term) *Term { return stripIface(t) }
	switch name {
	// arguments
	case "flag.NewFlagSet":
		f := tCall("flagset", args...)
		st.suppose(tNot(tBin("==", f, tNil())))
		return ret(st, f), true
	case "(*flag.FlagSet).StringVar", "flag.StringVar":
		a := args
		if name == "(*flag.FlagSet).StringVar" {
			a = args[1:]
		}
		st.store(a[0], a[2], pos, fr.fn)
		st.event(Event{Kind: "flag", Args: []*Term{a[1], a[0], a[2]}, Pos: pos, Fn: fr.fn})
		return ret(st), true
	case "(*flag.FlagSet).String", "flag.String":
		a := args
		if name == "(*flag.FlagSet).String" {
			a = args[1:]
		}
		p := st.alloc(types.Typ[types.String], a[1])
		st.event(Event{Kind: "flag", Args: []*Term{a[0], p, a[1]}, Pos: pos, Fn: fr.fn})
		return ret(st, p), true
	case "(*flag.FlagSet).Parse", "flag.Parse":
		exits := true
		if name == "(*flag.FlagSet).Parse" {
			set := args[0]
			given := args[1]
			okArgs := given.Op == OpSliceX || given.Op == OpCall && given.Name == "slice"
			okArgs = okArgs && len(given.Args) >= 2 && isGlobVar(given.Args[0], "os.Args")
			if okArgs {
				n, ok := given.Args[1].intVal()
				okArgs = ok && n == 1
			}
			if !okArgs {
				st.event(Event{Kind: "bad", Name: "flags are not parsed from all arguments of the program: " + given.String(), Pos: pos, Fn: fr.fn})
			}
			if set.Op == OpCall && set.Name == "flagset" {
				n, ok := set.Args[1].intVal()
				exits = ok && n == 1 // flag.ExitOnError
			}
		}
		var outs []Outcome
		if !exits {
			s := st.clone()
			e := w.errOf(s, "flags")
			s.event(Event{Kind: "io", Name: wFlags, Args: []*Term{tSym("os.Args")}, Res: e, Pos: pos, Fn: fr.fn})
			s.event(Event{Kind: "stderr", Args: []*Term{tStr("usage")}, Pos: pos, Fn: fr.fn})
			outs = append(outs, ret(s, e)...)
		}
		for n := 0; n <= 4; n++ {
			s := st
			if n < 4 {
				s = st.clone()
			}
			for _, e := range eventsOf(s.events, "flag", "") {
				s.store(e.Args[1], tCall("flag", e.Args[0]), pos, fr.fn)
			}
			s.event(Event{Kind: "nargs", Args: []*Term{tInt(int64(n))}, Pos: pos, Fn: fr.fn})
			s.event(Event{Kind: "io", Name: wFlags, Args: []*Term{tSym("os.Args")}, Res: tNil(), Pos: pos, Fn: fr.fn})
			rs := []*Term{tNil()}
			if name == "flag.Parse" {
				rs = nil
			}
			outs = append(outs, ret(s, rs...)...)
		}
		return outs, true
	case "(*flag.FlagSet).NArg", "flag.NArg", "(*flag.FlagSet).Arg", "flag.Arg", "(*flag.FlagSet).Args", "flag.Args":
		es := eventsOf(st.events, "nargs", "")
		if len(es) == 0 {
			in.fail("arguments are used before they are parsed")
		}
		n, _ := es[len(es)-1].Args[0].intVal()
		switch {
		case strings.HasSuffix(name, "NArg"):
			return ret(st, tInt(n)), true
		case strings.HasSuffix(name, "Args"):
			var xs []*Term
			for i := int64(0); i < n; i++ {
				xs = append(xs, tElem(argSym(i)))
			}
			l := tList(xs...)
			return ret(st, l), true
		}
		i, ok := args[len(args)-1].intVal()
		if !ok {
			in.fail("argument number %s", args[len(args)-1])
		}
		if i < 0 || i >= n {
			return ret(st, tStr("")), true
		}
		return ret(st, argSym(i)), true
	case "(*flag.FlagSet).NFlag", "flag.NFlag", "(*flag.FlagSet).Usage", "(*flag.FlagSet).PrintDefaults", "flag.PrintDefaults", "flag.Usage":
		return ret(st, callResults(tCall(name), sig)...), true

	// files
	case "os.Open":
		return opened(wOpen, args[0]), true
	case "os.Create":
		return opened(wCreate, args[0]), true
	case "os.OpenFile":
		st.event(Event{Kind: "mode", Args: []*Term{tFile(args[0]), args[2]}, Pos: pos, Fn: fr.fn})
		n, ok := args[1].intVal()
		if !ok {
			in.fail("flags of os.OpenFile: %s", args[1])
		}
		if n&w.flagValue("O_EXCL") != 0 {
			st.event(Event{Kind: "bad", Name: "file can only be opened if it does not exist", Pos: pos, Fn: fr.fn})
		}
		if n&w.flagValue("O_TRUNC") != 0 {
			return opened(wCreate, args[0]), true
		}
		outs := opened(wOpen, args[0])
		if n&w.flagValue("O_APPEND") != 0 {
			for i := range outs {
				outs[i].St.event(Event{Kind: "append", Args: []*Term{tFile(args[0])}, Pos: pos, Fn: fr.fn})
			}
		}
		if n&(w.flagValue("O_WRONLY")|w.flagValue("O_RDWR")) != 0 && n&w.flagValue("O_CREATE") == 0 {
			for i := range outs {
				outs[i].St.event(Event{Kind: "exists", Args: []*Term{tFile(args[0])}, Pos: pos, Fn: fr.fn})
			}
		}
		return outs, true
	case "os.CreateTemp", "io/ioutil.TempFile":
		return opened(wCreate, tSymT(st.fresh("tempfile"), types.Typ[types.String])), true
	case "(*os.File).Name":
		if f := args[0]; f.Op == OpCall && f.Name == "file" {
			return ret(st, f.Args[0]), true
		}
	case "io.ReadAll", "io/ioutil.ReadAll", "os.ReadFile", "io/ioutil.ReadFile":
		src := w.reader(st, args[0])
		if strings.HasSuffix(name, "File") {
			src = tFile(args[0])
		}
		g, b := valErr(func(s *State) *Term {
			return mk(Term{Op: OpCall, Name: "bytes", Args: []*Term{mk(Term{Op: OpCall, Name: "all", Args: []*Term{src}, Type: types.Typ[types.String]})}})
		})
		b = func(_ *State, e *Term) []*Term {
			return []*Term{tCall("bytes", mk(Term{Op: OpCall, Name: "part", Args: []*Term{src}, Type: types.Typ[types.String]})), e}
		}
		return w.fork(fr, st, wRead, []*Term{src}, pos, g, b), true
	case "os.WriteFile", "io/ioutil.WriteFile":
		f := tFile(args[0])
		st.event(Event{Kind: "mode", Args: []*Term{f, args[2]}, Pos: pos, Fn: fr.fn})
		s2 := st.clone()
		w.note(fr, st, wCreate, []*Term{f}, pos)
		w.note(fr, st, wWrite, []*Term{f, plainText(st, st.snapshot(args[1]))}, pos)
		w.note(fr, st, wClose, []*Term{f}, pos)
		outs := ret(st, tNil())
		e := w.errOf(s2, wWrite+" "+f.String())
		s2.event(Event{Kind: "io", Name: wCreate, Args: []*Term{f}, Res: tNil(), Pos: pos, Fn: fr.fn})
		s2.event(Event{Kind: "io", Name: wWrite, Args: []*Term{f, plainText(s2, s2.snapshot(args[1]))}, Res: e, Pos: pos, Fn: fr.fn})
		return append(outs, ret(s2, e)...), true
	case "(*os.File).Truncate", "os.Truncate":
		f := file(args[0])
		if name == "os.Truncate" {
			f = tFile(args[0])
		}
		return w.fork(fr, st, wTrunc, []*Term{f, args[1]}, pos, gE, bE), true
	case "(*os.File).Close":
		return w.fork(fr, st, wClose, []*Term{file(args[0])}, pos, gE, bE), true
	case "(*os.File).Sync":
		return w.fork(fr, st, wSync, []*Term{file(args[0])}, pos, gE, bE), true
	case "os.Remove", "os.RemoveAll":
		return w.fork(fr, st, wRemove, []*Term{tFile(args[0])}, pos, gE, bE), true
	case "os.Rename":
		return w.fork(fr, st, wRename, []*Term{tFile(args[0]), tFile(args[1])}, pos, gE, bE), true
	case "os.Stat", "os.Lstat", "(*os.File).Stat":
		f := file(args[0])
		if name != "(*os.File).Stat" {
			f = tFile(args[0])
		}
		g, b := valErr(func(s *State) *Term {
			t := tSymT(s.fresh("stat"), sig.Results().At(0).Type())
			s.suppose(tNot(tBin("==", t, tNil())))
			return t
		})
		return w.fork(fr, st, wStat, []*Term{f}, pos, g, b), true
	case "os.IsNotExist", "os.IsExist", "os.IsPermission", "os.Getenv", "os.LookupEnv", "os.Getpid", "os.TempDir":
		return ret(st, callResults(tCall(name, snapAll(st, args)...), sig)...), true

	// writing
	case "(*os.File).Write", "(*os.File).WriteString", "invoke io.Writer.Write", "invoke io.StringWriter.WriteString", "(*bufio.Writer).Write", "(*bufio.Writer).WriteString", "io.WriteString", "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString":
		return w.write(fr, st, args[0], plainText(st, st.snapshot(args[1])), pos, true)
	case "io.Copy", "(*bytes.Buffer).WriteTo", "(*strings.Reader).WriteTo", "(*bytes.Reader).WriteTo":
		dst, src := args[0], args[1]
		if name != "io.Copy" {
			dst, src = src, dst
		}
		src = stripIface(src)
		if src.Op == OpObj {
			if b := in.bufContent(st, src); b != nil {
				outs, ok := w.write(fr, st, dst, plainText(st, b), pos, true)
				if ok {
					id, path, _ := st.resolve(src)
					for i := range outs {
						s := outs[i].St
						o := *s.heap[id]
						o.content = writePath(o.content, o.typ, path, mk(Term{Op: OpCall, Name: "buffer", Args: []*Term{tStr("")}}))
						s.heap[id] = &o
					}
				}
				return outs, ok
			}
		}
		if src.Op == OpCall && (src.Name == "strings.NewReader" || src.Name == "bytes.NewReader") {
			return w.write(fr, st, dst, plainText(st, src.Args[0]), pos, true)
		}
		// a stream is copied: reading and writing can fail
		f := w.reader(st, src)
		st2 := st.clone()
		e := w.errOf(st2, wRead+" "+f.String())
		st2.event(Event{Kind: "io", Name: wRead, Args: []*Term{f}, Res: e, Pos: pos, Fn: fr.fn})
		outs := ret(st2, tSymT("n", types.Typ[types.Int64]), e)
		w.note(fr, st, wRead, []*Term{f}, pos)
		more, ok := w.write(fr, st, dst, mk(Term{Op: OpCall, Name: "all", Args: []*Term{f}, Type: types.Typ[types.String]}), pos, true)
		return append(outs, more...), ok
	case "bufio.NewWriter", "bufio.NewWriterSize":
		elem := sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		return ret(st, st.alloc(elem, mk(Term{Op: OpCall, Name: "bufio", Args: []*Term{stripIface(args[0]), tStr("")}, Type: elem}))), true
	case "(*bufio.Writer).Flush":
		if c := w.bufioOf(st, args[0]); c != nil {
			w.setBufio(st, args[0], c.Args[0], tStr(""))
			return w.write(fr, st, c.Args[0], c.Args[1], pos, false)
		}
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
		return w.write(fr, st, args[0], w.spr(st, name, args[1:]), pos, true)
	case "fmt.Print", "fmt.Printf", "fmt.Println":
		return w.write(fr, st, tSym("global:os.Stdout"), w.spr(st, name, args), pos, true)
	case "builtin print", "builtin println":
		st.event(Event{Kind: "stderr", Args: []*Term{tCall("println", snapAll(st, args)...)}, Pos: pos, Fn: fr.fn})
		return ret(st), true
	case "log.Print", "log.Printf", "log.Println", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln":
		st.event(Event{Kind: "stderr", Args: []*Term{tConcat(tSymT("log prefix", types.Typ[types.String]), w.spr(st, name, args))}, Pos: pos, Fn: fr.fn})
		switch {
		case strings.Contains(name, "Fatal"):
			return w.exit(st, tInt(1), pos), true
		case strings.Contains(name, "Panic"):
			return []Outcome{{Kind: "panic", St: st, Pos: pos, fr: fr}}, true
		}
		return ret(st), true
	case "log.SetFlags", "log.SetPrefix":
		return ret(st), true
	case "os.Exit":
		return w.exit(st, args[0], pos), true
	case "bytes.NewBuffer", "bytes.NewBufferString":
		if init := plainText(st, st.snapshot(args[0])); init.Op == OpCall && init.Name == "all" || init.Op == OpConst {
			elem := sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
			return ret(st, st.alloc(elem, mk(Term{Op: OpCall, Name: "buffer", Args: []*Term{init}, Type: elem}))), true
		}
	case "bufio.NewReader", "strings.NewReader", "bytes.NewReader", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String":
		return nil, false

	// other
	case "encoding/asn1.Marshal":
		v := st.snapshot(args[0])
		g, b := valErr(func(s *State) *Term { return tCall("bytes", tCall("der", v)) })
		return w.fork(fr, st, wEncode, []*Term{v}, pos, g, b), true
	case "os/exec.Command":
		elem := sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		sn := snapAll(st, args)
		st.event(Event{Kind: "command", Args: sn, Pos: pos, Fn: fr.fn})
		return ret(st, st.alloc(elem, zero(elem))), true
	case "(*os/exec.Cmd).Run", "(*os/exec.Cmd).CombinedOutput", "(*os/exec.Cmd).Output":
		return w.run(fr, st, name, args, sig, pos)
	}
	if strings.HasPrefix(name, "invoke ") && sig.Results().Len() > 0 {
		if strings.HasSuffix(name, ".Write") && len(args) == 2 {
			return w.write(fr, st, args[0], plainText(st, st.snapshot(args[1])), pos, true)
		}
		if strings.HasSuffix(name, ".Close") && sig.Results().Len() == 1 {
			return w.fork(fr, st, wClose, []*Term{file(args[0])}, pos, gE, bE), true
		}
	}
	bad := worldPkgs[pkgOfName(name)]
	for _, a := range args {
		bad = bad || anyTerm(a, func(x *Term) bool {
			return x.Op == OpCall && x.Name == "file" || x.Op == OpSym && (x.Name == "global:os.Stdin" || x.Name == "global:os.Stdout")
		}) && !strings.HasPrefix(name, "fmt.Sprint") && !strings.HasPrefix(name, "strings.") && name != "fmt.Errorf" && name != "errors.New"
	}
	if strings.HasPrefix(name, "(*os/exec.Error)") || strings.HasPrefix(name, "invoke error.") || strings.HasSuffix(name, ".Error") {
		bad = false
	}
	if bad {
		st.event(Event{Kind: "io", Name: wOther, Args: []*Term{tSym(name)}, Res: tNil(), Pos: pos, Fn: fr.fn})
	}
	return nil, false
}

func argSym(i int64) *Term { return tSymT(fmt.Sprintf("argument %d", i), types.Typ[types.String]) }

// run is a program that is run by os/exec.
func (w *world) run(fr *Frame, st *State, name string, args []*Term, sig *types.Signature, pos token.Pos) ([]Outcome, bool) {
	id, path, ok := st.resolve(args[0])
	if !ok || len(path) != 0 {
		return nil, false
	}
	o := st.heap[id]
	get := func(f string) *Term {
		return stripIface(st.load(mk(Term{Op: OpFieldA, Name: f, Args: []*Term{args[0]}}), fieldType(o.typ, f)))
	}
	out, errw := get("Stdout"), get("Stderr")
	stdout, stderr := tSymT("stdout of program", types.Typ[types.String]), tSymT("stderr of program", types.Typ[types.String])
	both := tSymT("output of program", types.Typ[types.String])
	outcome := func(s *State, e *Term) []Outcome {
		s.event(Event{Kind: "io", Name: wRun, Args: []*Term{tSym(name)}, Res: e, Pos: pos, Fn: fr.fn})
		switch {
		case strings.HasSuffix(name, "CombinedOutput"):
			return ret(s, tCall("bytes", both), e)
		case strings.HasSuffix(name, "Output"):
			return ret(s, tCall("bytes", stdout), e)
		}
		if out == errw && out.Op == OpObj {
			w.in.bufAppend(s, out, both)
		} else {
			if out.Op == OpObj {
				w.in.bufAppend(s, out, stdout)
			}
			if errw.Op == OpObj {
				w.in.bufAppend(s, errw, stderr)
			}
		}
		return ret(s, e)
	}
	s2 := st.clone()
	outs := outcome(st, tNil())
	return append(outs, outcome(s2, w.errOf(s2, "program"))...), true
}

package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
	"unicode"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked source of the repository in SSA form.
type Program struct {
	Dir   string
	Pkgs  []*packages.Package
	Prog  *ssa.Program
	SSA   map[string]*ssa.Package // by path relative to the module: "", cmd/asn1go, ...
	Mod   string
	Funcs []*ssa.Function // all functions with bodies in the repository, in source order
	repo  map[*ssa.Package]bool

	loops    map[*ssa.Function]map[*ssa.BasicBlock]*natLoop
	globals  map[*ssa.Global]*Term
	gwrites  map[*ssa.Global][]ssa.Instruction // writes outside of initialisation
	initOf   map[*ssa.Package]*State
	roles    map[*ssa.Function]string
	genCache interface{}
	mods     map[*ssa.Function]*modSet

	deadline   time.Time // for the run that is going on
	pureExtern map[string]bool
	pureLoops  bool // describe loops without effects by terms
}

type fieldKey struct {
	typ, field string
}

type modHow int

const (
	modAny modHow = iota + 1
	modGrow
)

type modSet struct {
	params  map[int]bool
	unknown bool
	fields  map[fieldKey]modHow
	stream  bool
	globals map[*ssa.Global]bool
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func load() (*Program, error) { return loadWith(nil) }

// loadWith loads the repository with other contents of some files.
func loadWith(overlay map[string][]byte) (*Program, error) {
	dir := repoDir()
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "CGO_ENABLED=0")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: dir, Env: env, Overlay: overlay, ParseFile: (&loader{dir}).parseFile}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, fmt.Errorf("loading of %s: %v", dir, err)
	}
	p := &Program{Dir: dir, SSA: map[string]*ssa.Package{}, repo: map[*ssa.Package]bool{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*natLoop{},
		globals: map[*ssa.Global]*Term{}, gwrites: map[*ssa.Global][]ssa.Instruction{}, initOf: map[*ssa.Package]*State{}, roles: map[*ssa.Function]string{}, mods: map[*ssa.Function]*modSet{}}
	p.pureLoops = true
	p.pureExtern = map[string]bool{
		"(time.Time).String": true,
	}
	for _, q := range pkgs {
		if q.Module != nil && q.Module.Main {
			p.Mod = q.Module.Path
		}
	}
	for _, q := range pkgs {
		if strings.Contains(q.PkgPath, "/examples") {
			continue
		}
		if len(q.Errors) > 0 {
			return nil, fmt.Errorf("%s does not type-check: %v", q.PkgPath, q.Errors[0])
		}
		if q.IllTyped {
			return nil, fmt.Errorf("%s does not type-check", q.PkgPath)
		}
		p.Pkgs = append(p.Pkgs, q)
	}
	if len(p.Pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	prog, spkgs := ssautil.Packages(p.Pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.Prog = prog
	for i, s := range spkgs {
		if s == nil {
			return nil, fmt.Errorf("no SSA for %s", p.Pkgs[i].PkgPath)
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p.Pkgs[i].PkgPath, p.Mod), "/")
		p.SSA[rel] = s
		p.repo[s] = true
	}
	for f := range ssautil.AllFunctions(prog) {
		if p.inRepo(f) && len(f.Blocks) > 0 {
			p.Funcs = append(p.Funcs, f)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	p.collectGlobalWrites()
	return p, p.learnRunes()
}

// learnRunes finds the characters outside ASCII that the lexer mentions, so that they are looked at on their own.
func (p *Program) learnRunes() error {
	var fs []*ssa.Function
	for _, f := range p.Funcs {
		if f.Name() == "Lex" && f.Signature.Recv() != nil {
			fs = append(fs, p.reachable(f)...)
		}
	}
	if root := p.SSA[""]; root != nil && root.Func("init") != nil {
		fs = append(fs, root.Func("init"))
	}
	order := map[token.Token]bool{token.LSS: true, token.LEQ: true, token.GTR: true, token.GEQ: true}
	found := map[rune]bool{} // whether it is compared for order
	for _, f := range fs {
		if !p.inRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				op, compared := token.ILLEGAL, false
				if x, ok := i.(*ssa.BinOp); ok {
					op, compared = x.Op, order[x.Op] || x.Op == token.EQL || x.Op == token.NEQ
				}
				for _, o := range i.Operands(nil) {
					c, ok := (*o).(*ssa.Const)
					if !ok || c.Value == nil {
						continue
					}
					switch c.Value.Kind() {
					case constant.Int:
						t, _ := c.Type().Underlying().(*types.Basic)
						n, exact := constant.Int64Val(c.Value)
						if t == nil || !exact || n < 128 || n > unicode.MaxRune || !compared && t.Kind() != types.Int32 && f.Name() != "init" || f.Name() == "init" && t.Kind() != types.Int32 {
							continue
						}
						ord := order[op] || op != token.ILLEGAL && !compared
						found[rune(n)] = found[rune(n)] || ord
					case constant.String:
						for _, r := range constant.StringVal(c.Value) {
							if r >= 128 {
								found[r] = found[r] || false
							}
						}
					}
				}
			}
		}
	}
	var rs []int
	for r := range found {
		rs = append(rs, int(r))
	}
	sort.Ints(rs)
	for _, r := range rs {
		if err := learnRune(rune(r), found[rune(r)]); err != nil {
			return err
		}
	}
	return nil
}

func (p *Program) pkg(rel string) *ssa.Package { return p.SSA[rel] }

func (p *Program) inRepo(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	if f.Pkg != nil {
		return p.repo[f.Pkg]
	}
	// wrappers, bound methods, instances
	if f.Origin() != nil && f.Origin() != f {
		return p.inRepo(f.Origin())
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), p.Mod) && p.Mod != ""
	}
	if f.Parent() != nil {
		return p.inRepo(f.Parent())
	}
	return false
}

func (p *Program) loopsOf(f *ssa.Function) map[*ssa.BasicBlock]*natLoop {
	l, ok := p.loops[f]
	if !ok {
		l = findLoops(f)
		p.loops[f] = l
	}
	return l
}

func isInit(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
}

// rootGlobal follows an address or a reference loaded from a global back to the global.
func rootGlobal(v ssa.Value, seen map[ssa.Value]bool) *ssa.Global {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Global:
		return x
	case *ssa.FieldAddr:
		return rootGlobal(x.X, seen)
	case *ssa.IndexAddr:
		return rootGlobal(x.X, seen)
	case *ssa.UnOp:
		return rootGlobal(x.X, seen)
	case *ssa.Slice:
		return rootGlobal(x.X, seen)
	case *ssa.ChangeType:
		return rootGlobal(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if g := rootGlobal(e, seen); g != nil {
				return g
			}
		}
	}
	return nil
}

// collectGlobalWrites finds every instruction outside of initialisation that may write package-level variables
// or what they refer to.
func (p *Program) collectGlobalWrites() {
	note := func(f *ssa.Function, v ssa.Value, i ssa.Instruction) {
		if isInit(f) {
			return
		}
		if g := rootGlobal(v, map[ssa.Value]bool{}); g != nil {
			p.gwrites[g] = append(p.gwrites[g], i)
		}
	}
	refLike := func(t types.Type) bool {
		if immutable(t) {
			return false
		}
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Chan:
			return true
		}
		return false
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					note(f, x.Addr, i)
					if refLike(x.Val.Type()) {
						if _, isConst := x.Val.(*ssa.Const); !isConst {
							note(f, x.Val, i) // reference leaves
						}
					}
				case *ssa.MapUpdate:
					note(f, x.Map, i)
					if refLike(x.Value.Type()) {
						note(f, x.Value, i)
					}
				case *ssa.Send:
					note(f, x.X, i)
				case ssa.CallInstruction:
					c := x.Common()
					if b, ok := c.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
						continue
					}
					for n, a := range c.Args {
						if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() == "append" && n == 1 {
							continue
						}
						if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() == "copy" && n == 1 {
							continue
						}
						if refLike(a.Type()) {
							note(f, a, i)
						}
					}
				case *ssa.Return:
					for _, r := range x.Results {
						if refLike(r.Type()) {
							note(f, r, i)
						}
					}
				case *ssa.MakeInterface:
					if refLike(x.X.Type()) {
						note(f, x.X, i)
					}
				case *ssa.MakeClosure:
					for _, bd := range x.Bindings {
						note(f, bd, i)
					}
				}
			}
		}
	}
}

// globalContent is the content of a package-level variable that only initialisation writes, or nil.
func (p *Program) globalContent(g *ssa.Global) *Term {
	if t, ok := p.globals[g]; ok {
		return t
	}
	p.globals[g] = nil
	if g.Pkg == nil || !p.repo[g.Pkg] || len(p.gwrites[g]) > 0 {
		if g.Pkg != nil && !p.repo[g.Pkg] {
			switch g.String() {
			case "io.EOF":
				p.globals[g] = tEOF()
			}
		}
		return p.globals[g]
	}
	elem := g.Type().Underlying().(*types.Pointer).Elem()
	if a, ok := elem.Underlying().(*types.Array); ok && a.Len() > 64 {
		return nil
	}
	st := p.initState(g.Pkg)
	if st == nil {
		return nil
	}
	key := mk(Term{Op: OpGlobal, Name: g.String(), Type: g.Type()})
	if id, ok := st.symObj[key]; ok {
		p.globals[g] = st.snapshot(st.heap[id].content)
	} else {
		p.globals[g] = zero(elem)
	}
	return p.globals[g]
}

// initState interprets the initialisation of a package.
func (p *Program) initState(pkg *ssa.Package) *State {
	if s, ok := p.initOf[pkg]; ok {
		return s
	}
	p.initOf[pkg] = nil
	f := pkg.Func("init")
	if f == nil {
		return nil
	}
	in := newInterp(p)
	in.initMode = pkg
	st := newState()
	outs, err := in.Run(f, nil, st)
	if err != nil {
		return nil
	}
	var res *State
	for i := range outs {
		if outs[i].Kind != "ret" {
			return nil
		}
		if len(outs[i].St.events) == 0 && res != nil {
			continue
		}
		if res != nil && len(outs) > 1 {
			return nil
		}
		res = outs[i].St
	}
	p.initOf[pkg] = res
	return res
}

func (p *Program) implementations(m *types.Func) ([]*ssa.Function, bool) {
	sig := m.Type().(*types.Signature)
	if sig.Recv() == nil {
		return nil, false
	}
	it, ok := sig.Recv().Type().Underlying().(*types.Interface)
	if !ok {
		return nil, false
	}
	inRepoIface := m.Pkg() != nil && strings.HasPrefix(m.Pkg().Path(), p.Mod)
	var res []*ssa.Function
	for _, sp := range p.sortedPkgs() {
		for _, name := range sp.Pkg.Scope().Names() {
			tn, ok := sp.Pkg.Scope().Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if isIface(tn.Type()) || !types.Implements(t, it) {
					continue
				}
				if f := p.Prog.LookupMethod(t, m.Pkg(), m.Name()); f != nil {
					res = append(res, f)
				}
			}
		}
	}
	return res, inRepoIface
}

func (p *Program) sortedPkgs() []*ssa.Package {
	var ks []string
	for k := range p.SSA {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []*ssa.Package
	for _, k := range ks {
		r = append(r, p.SSA[k])
	}
	return r
}

// pureInvoke tells whether a call of an interface method has no effects.
func (p *Program) pureInvoke(m *types.Func) bool {
	if m.Pkg() == nil && m.Name() == "Error" {
		return true
	}
	fs, own := p.implementations(m)
	if !own || len(fs) == 0 {
		return false
	}
	for _, f := range fs {
		ms := p.modset(f)
		if ms.unknown || ms.stream || len(ms.fields) > 0 || len(ms.params) > 0 || len(ms.globals) > 0 {
			return false
		}
	}
	return true
}

func (p *Program) readOnlyExtern(name string) bool {
	switch name {
	case "go/printer.Fprint", "(*os.File).Write", "(*os.File).Close", "(*os.File).Truncate", "(*os.File).Sync", "os.Open", "os.OpenFile", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint",
		"encoding/asn1.Marshal", "io/ioutil.WriteFile", "os.WriteFile", "io/ioutil.ReadAll", "io.ReadAll", "go/token.NewFileSet":
		return true
	}
	return strings.HasPrefix(name, "invoke error.") || strings.HasPrefix(name, "invoke io.Writer.")
}

func (p *Program) roleName(f *ssa.Function) string {
	if r, ok := p.roles[f]; ok {
		return r
	}
	return f.String()
}

// modset is a conservative summary of what a function, with everything it calls, may write.
func (p *Program) modset(f *ssa.Function) *modSet {
	if m, ok := p.mods[f]; ok {
		return m
	}
	// all functions at once, to a fixpoint
	all := append([]*ssa.Function{}, p.Funcs...)
	have := map[*ssa.Function]bool{}
	for _, g := range all {
		have[g] = true
	}
	if !have[f] {
		all = append(all, f)
	}
	for _, g := range all {
		if p.mods[g] == nil {
			p.mods[g] = &modSet{params: map[int]bool{}, fields: map[fieldKey]modHow{}, globals: map[*ssa.Global]bool{}}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, g := range all {
			if p.modsetStep(g, have) {
				changed = true
			}
		}
	}
	return p.mods[f]
}

func paramIndex(f *ssa.Function, v ssa.Value) int {
	for i, q := range f.Params {
		if q == v {
			return i
		}
	}
	return -1
}

// localAlloc: memory made by the function itself that did not come from elsewhere.
func localAlloc(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure:
		return true
	case *ssa.Const:
		return true
	case *ssa.Call:
		if f, ok := x.Call.Value.(*ssa.Function); ok && (f.Pkg == nil || f.Pkg.Pkg.Path() != "") {
			switch fnName(f) {
			case "go/ast.NewIdent", "bytes.NewBufferString", "bytes.NewBuffer":
				return true
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !localAlloc(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Slice:
		return localAlloc(x.X, seen)
	case *ssa.FieldAddr:
		return localAlloc(x.X, seen)
	case *ssa.IndexAddr:
		return localAlloc(x.X, seen)
	case *ssa.ChangeType:
		return localAlloc(x.X, seen)
	case *ssa.UnOp:
		// a local variable that only ever holds local memory
		if a, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				switch y := r.(type) {
				case *ssa.Store:
					if y.Addr == a && !localAlloc(y.Val, seen) {
						return false
					}
					if y.Val == a {
						return false
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return false
				}
			}
			return true
		}
	}
	return false
}

func (p *Program) modsetStep(f *ssa.Function, have map[*ssa.Function]bool) bool {
	m := p.mods[f]
	changed := false
	setField := func(k fieldKey, h modHow) {
		o := m.fields[k]
		if o == modAny || o == h {
			return
		}
		if o == modGrow && h == modAny || o == 0 {
			m.fields[k] = h
			changed = true
		}
	}
	setParam := func(i int) {
		if !m.params[i] {
			m.params[i] = true
			changed = true
		}
	}
	setUnknown := func() {
		if !m.unknown {
			m.unknown = true
			changed = true
		}
	}
	setStream := func() {
		if !m.stream {
			m.stream = true
			changed = true
		}
	}
	// write through address a
	var write func(a ssa.Value, how modHow)
	write = func(a ssa.Value, how modHow) {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			st := structOf(x.X.Type())
			if localAlloc(x.X, map[ssa.Value]bool{}) {
				return
			}
			t := x.X.Type().Underlying().(*types.Pointer).Elem()
			setField(fieldKey{types.TypeString(t, nil), st.Field(x.Field).Name()}, how)
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				write(fa, modAny)
			}
			if g := rootGlobal(x.X, map[ssa.Value]bool{}); g != nil && !m.globals[g] {
				m.globals[g] = true
				changed = true
			}
		case *ssa.IndexAddr:
			if localAlloc(x.X, map[ssa.Value]bool{}) {
				return
			}
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				write(x.X, modAny)
				return
			}
			if g := rootGlobal(x.X, map[ssa.Value]bool{}); g != nil {
				if !m.globals[g] {
					m.globals[g] = true
					changed = true
				}
				return
			}
			setUnknown()
		case *ssa.Global:
			if !m.globals[x] {
				m.globals[x] = true
				changed = true
			}
		case *ssa.Parameter:
			setParam(paramIndex(f, x))
			if t, ok := x.Type().Underlying().(*types.Pointer); ok {
				if st := structOf(t.Elem()); st != nil {
					for i := 0; i < st.NumFields(); i++ {
						setField(fieldKey{types.TypeString(t.Elem(), nil), st.Field(i).Name()}, modAny)
					}
				}
			}
		default:
			if localAlloc(a, map[ssa.Value]bool{}) {
				return
			}
			setUnknown()
		}
	}
	callee := func(g *ssa.Function, args []ssa.Value) {
		n := p.mods[g]
		if n == nil {
			return
		}
		if n.unknown {
			setUnknown()
		}
		if n.stream {
			setStream()
		}
		for k, h := range n.fields {
			setField(k, h)
		}
		for gl := range n.globals {
			if !m.globals[gl] {
				m.globals[gl] = true
				changed = true
			}
		}
		for i := range n.params {
			if i >= 0 && i < len(args) {
				a := args[i]
				if t, ok := a.Type().Underlying().(*types.Pointer); ok && structOf(t.Elem()) != nil {
					continue // by field
				}
				write(a, modAny)
			}
		}
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				how := modAny
				if isGrow(x) {
					how = modGrow
				}
				write(x.Addr, how)
			case *ssa.MapUpdate:
				if !localAlloc(x.Map, map[ssa.Value]bool{}) {
					if g := rootGlobal(x.Map, map[ssa.Value]bool{}); g != nil {
						if !m.globals[g] {
							m.globals[g] = true
							changed = true
						}
					} else {
						setUnknown()
					}
				}
			case *ssa.Defer, *ssa.Go, *ssa.Call:
				c := i.(ssa.CallInstruction).Common()
				if c.IsInvoke() {
					fs, own := p.implementations(c.Method)
					if own {
						for _, g := range fs {
							callee(g, append([]ssa.Value{c.Value}, c.Args...))
						}
					}
					continue
				}
				switch g := c.Value.(type) {
				case *ssa.Builtin:
					if g.Name() == "copy" || g.Name() == "delete" {
						if !localAlloc(c.Args[0], map[ssa.Value]bool{}) {
							setUnknown()
						}
					}
				case *ssa.Function:
					if have[g] {
						callee(g, c.Args)
					} else {
						n := fnName(g)
						if strings.HasPrefix(n, "(*bufio.Reader).") {
							setStream()
						}
						if strings.HasPrefix(n, "(*bytes.Buffer).Write") || strings.HasPrefix(n, "(*strings.Builder).Write") {
							write(c.Args[0], modAny)
						}
					}
				case *ssa.MakeClosure:
					if h, ok := g.Fn.(*ssa.Function); ok {
						callee(h, c.Args)
					}
				default:
					setUnknown()
				}
			}
		}
	}
	return changed
}

// isGrow: x.f = append(x.f, ...)
func isGrow(s *ssa.Store) bool {
	c, ok := s.Val.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" {
		return false
	}
	ld, ok := c.Call.Args[0].(*ssa.UnOp)
	if !ok {
		return false
	}
	a, ok1 := ld.X.(*ssa.FieldAddr)
	d, ok2 := s.Addr.(*ssa.FieldAddr)
	return ok1 && ok2 && a.X == d.X && a.Field == d.Field
}

func (p *Program) rel(file string) string {
	if r, err := filepath.Rel(p.Dir, file); err == nil {
		return r
	}
	return file
}

// runDefault interprets f on symbolic arguments named after its parameters.
func (in *Interp) runDefault(f *ssa.Function) ([]Outcome, error) {
	var args []*Term
	in.ptrParams = map[*Term]bool{}
	for i, q := range f.Params {
		a := tSymT(fmt.Sprintf("$%d", i), q.Type())
		if _, ok := q.Type().Underlying().(*types.Pointer); ok {
			in.ptrParams[a] = true
		}
		args = append(args, a)
	}
	return in.Run(f, args, newState())
}

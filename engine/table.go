package main

import (
	"fmt"
	"go/token"
	"regexp"
	"sort"
	"strings"
)

// Decision tables: the behaviour of a piece of code as a set of paths (conditions, result, effects) is compared
// with a specification given as rows (conditions, expected result and effects; the first row that applies counts).
// Both sides are evaluated for every combination of truth values of the conditions that occur on either side,
// so it does not matter in which order, or how often, the code asks.

// tpath is one path of the code.
type tpath struct {
	lits []*Term
	ret  string
	eff  []string
	pos  token.Pos
	term *Term
	back *LoopPath
}

// trow is one row of the specification.
type trow struct {
	name  string
	when  []string // conditions, "!" negates
	ret   []string // acceptable results, none: any
	eff   []string // effects that must be there; "~" marks one that may be there, "*" anything else is fine
	free  bool     // nothing is specified for this case
	never bool     // the code must not get there
}

type table struct {
	props   map[string]string // facet -> properties; facet of an effect is its first word; "ret", "" is the default
	rule    string
	subject string
	paths   []tpath
	rows    []trow
	kinds   map[string]string // subject of type tests -> interface all implementations of which are tested
	notNil  map[string]bool   // subjects that are never nil
	given   []string          // conditions that hold anyway
	pos     token.Pos
}

var reIs = regexp.MustCompile(`^is\[([^\]]+)\]\((.*)\)$`)
var reEq = regexp.MustCompile(`^\((.*) == ("[^"]*"|-?[0-9]+|nil|true|false)\)$`)

// cond is a condition: choice of group, or plain truth value.
type cond struct {
	group, val string // group == "": boolean
	text       string
}

func parseCond(s string) cond {
	if m := reIs.FindStringSubmatch(s); m != nil && balanced(m[2]) {
		return cond{group: m[2], val: "is " + m[1], text: s}
	}
	if m := reEq.FindStringSubmatch(s); m != nil && balanced(m[1]) {
		return cond{group: m[1], val: "= " + m[2], text: s}
	}
	return cond{text: s}
}

func balanced(s string) bool {
	d := 0
	for _, c := range s {
		switch c {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
			if d < 0 {
				return false
			}
		}
	}
	return d == 0
}

type assignment map[string]string // group -> chosen value, or boolean text -> "t"/"f"

func (a assignment) holds(c cond) bool {
	if c.group != "" {
		return a[c.group] == c.val
	}
	return a[c.text] == "t"
}

var condMemo = map[string]cond{}

// condOf is parseCond, remembered.
func condOf(s string) cond {
	c, ok := condMemo[s]
	if !ok {
		c = parseCond(s)
		condMemo[s] = c
	}
	return c
}

func (c cond) dim() string {
	if c.group != "" {
		return c.group
	}
	return c.text
}

func (a assignment) holdsS(s string) bool {
	neg := false
	for strings.HasPrefix(s, "!") {
		neg = !neg
		s = s[1:]
	}
	return a.holds(condOf(s)) != neg
}

func (a assignment) eval(t *Term) bool {
	switch t.Op {
	case OpNot:
		return !a.eval(t.Args[0])
	case OpAnd:
		for _, x := range t.Args {
			if !a.eval(x) {
				return false
			}
		}
		return true
	}
	if v, ok := t.boolVal(); ok {
		return v
	}
	return a.holds(condOf(t.String()))
}

func atoms(t *Term, add func(string)) {
	switch t.Op {
	case OpNot, OpAnd:
		for _, x := range t.Args {
			atoms(x, add)
		}
		return
	}
	if _, ok := t.boolVal(); ok {
		return
	}
	add(t.String())
}

func (t *table) facet(eff string) string {
	w := eff
	if i := strings.IndexAny(eff, " ("); i >= 0 {
		w = eff[:i]
	}
	if p, ok := t.props[w]; ok {
		return p
	}
	return t.props[""]
}

func (t *table) allProps() string {
	m := map[string]bool{}
	var xs []string
	for _, p := range t.props {
		for _, w := range strings.Fields(p) {
			if !m[w] {
				m[w] = true
				xs = append(xs, w)
			}
		}
	}
	sort.Strings(xs)
	return strings.Join(xs, " ")
}

func (t *table) retProps() string {
	if p, ok := t.props["ret"]; ok {
		return p
	}
	return t.props[""]
}

// decide compares code and specification and records one obligation per row and facet.
func (r *Report) decide(t *table) {
	groups := map[string]map[string]bool{}
	bools := map[string]bool{}
	add := func(s string) {
		for strings.HasPrefix(s, "!") {
			s = s[1:]
		}
		c := condOf(s)
		if c.group == "" {
			bools[c.text] = true
			return
		}
		if groups[c.group] == nil {
			groups[c.group] = map[string]bool{}
		}
		groups[c.group][c.val] = true
	}
	for _, p := range t.paths {
		for _, l := range p.lits {
			atoms(l, add)
		}
	}
	for _, w := range t.rows {
		for _, c := range w.when {
			add(c)
		}
	}
	for _, c := range t.given {
		add(c)
	}
	for g, iface := range t.kinds {
		it := r.pr.typ("", iface)
		if it == nil {
			r.check(t.allProps(), t.rule, t.subject, "interface "+iface, t.pos, false, "interface was not found")
			return
		}
		if groups[g] == nil {
			groups[g] = map[string]bool{}
		}
		for _, k := range r.pr.implementers("", it) {
			groups[g]["is "+shortType(k)] = true
		}
	}
	type dim struct {
		name string
		vals []string
	}
	var dims []dim
	for g, vs := range groups {
		d := dim{name: g}
		for v := range vs {
			d.vals = append(d.vals, v)
		}
		sort.Strings(d.vals)
		if _, closed := t.kinds[g]; !closed {
			if !(len(vs) == 2 && vs["= true"] && vs["= false"]) {
				d.vals = append(d.vals, "other")
			}
		} else if !t.notNil[g] && !vs["= nil"] {
			d.vals = append(d.vals, "= nil")
		}
		dims = append(dims, d)
	}
	for b := range bools {
		dims = append(dims, dim{b, []string{"t", "f"}})
	}
	sort.Slice(dims, func(i, j int) bool {
		if len(dims[i].name) != len(dims[j].name) {
			return len(dims[i].name) < len(dims[j].name)
		}
		return dims[i].name < dims[j].name
	})
	before := make([][]string, len(dims))
	for i := range dims {
		for j := 0; j < i; j++ {
			if groups[dims[j].name] != nil && strings.Contains(dims[i].name, dims[j].name+".(") {
				before[i] = append(before[i], dims[j].name)
			}
		}
	}
	count := 0
	fails := map[string]string{} // row|facet props -> message
	seen := map[int]bool{}
	a := assignment{}
	var walk func(i int)
	judge := func() {
		if count++; count > 400000 {
			var xs []string
			for _, d := range dims {
				xs = append(xs, d.name)
			}
			panic(undecided{fmt.Sprintf("%s %s: too many conditions to compare: %q", t.rule, t.subject, xs)})
		}
		for _, g := range t.given {
			if !a.holdsS(g) {
				return
			}
		}
		for g, v := range a {
			// what is bare of nil has no type
			if v == "= nil" && strings.HasPrefix(a["bare("+g+")"], "is ") {
				return
			}
			// a list that is nil is empty
			if x := strings.TrimSuffix(strings.TrimPrefix(g, "([] == "), ")"); v == "t" && x != g && a["len("+x+")"] != "" && a["len("+x+")"] != "= 0" {
				return
			}
		}
		row := -1
		for i, w := range t.rows {
			ok := true
			for _, c := range w.when {
				if !a.holdsS(c) {
					ok = false
					break
				}
			}
			if ok {
				row = i
				break
			}
		}
		if row >= 0 {
			seen[row] = true
			if t.rows[row].free {
				return
			}
		}
		any := false
		fail := func(props, facet, format string, args ...interface{}) {
			k := props + "\x00" + fmt.Sprint(row) + "\x00" + facet
			if _, ok := fails[k]; !ok {
				fails[k] = fmt.Sprintf(format, args...) + " when " + a.text()
			}
		}
		for pi := range t.paths {
			p := &t.paths[pi]
			ok := true
			for _, l := range p.lits {
				if !a.eval(l) {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			any = true
			if row < 0 {
				fail(t.allProps(), "specified", "nothing is specified, the code gives %s %q", p.ret, p.eff)
				continue
			}
			w := &t.rows[row]
			if w.never {
				fail(t.allProps(), "never", "gets here, giving %s %q,", p.ret, p.eff)
				continue
			}
			if len(w.ret) > 0 {
				ok := false
				for _, x := range w.ret {
					if x == p.ret {
						ok = true
					}
				}
				if !ok {
					fail(t.retProps(), "result", "gives %s instead of %s", p.ret, strings.Join(w.ret, " or "))
				}
			}
			have := map[string]bool{}
			for _, e := range p.eff {
				have[e] = true
			}
			may := map[string]bool{}
			anything := false
			for _, e := range w.eff {
				if e == "*" {
					anything = true
					continue
				}
				if strings.HasPrefix(e, "~") {
					may[e[1:]] = true
					continue
				}
				if alts := strings.Split(e, " || "); len(alts) > 1 {
					// one of them
					got := false
					for _, x := range alts {
						may[x] = true
						got = got || have[x]
					}
					if !got {
						fail(t.facet(e), "effect "+e, "does not do %q", e)
					}
					continue
				}
				may[e] = true
				if !have[e] {
					fail(t.facet(e), "effect "+e, "does not do %q", e)
				}
			}
			if !anything {
				for _, e := range p.eff {
					if !may[e] {
						fail(t.facet(e), "no other effect", "does %q, which is not specified", e)
					}
				}
			}
		}
		if !any && row >= 0 && !t.rows[row].never {
			fail(t.allProps(), "result", "no way through the code was found")
		}
	}
	// what matters for what: a condition is decided once all conditions it consists of are
	index := map[string]int{}
	for i, d := range dims {
		index[d.name] = i
	}
	needs := make([]map[int]bool, len(dims))
	var close func(i int, m map[int]bool)
	close = func(i int, m map[int]bool) {
		if m[i] {
			return
		}
		m[i] = true
		for _, n := range before[i] {
			close(index[n], m)
		}
		n := dims[i].name
		for _, o := range []string{strings.TrimSuffix(strings.TrimPrefix(n, "bare("), ")"), "len(" + strings.TrimSuffix(strings.TrimPrefix(n, "([] == "), ")") + ")",
			"([] == " + strings.TrimSuffix(strings.TrimPrefix(n, "len("), ")") + ")", "bare(" + n + ")"} {
			if j, ok := index[o]; ok {
				close(j, m)
			}
		}
	}
	for i := range dims {
		needs[i] = map[int]bool{}
		close(i, needs[i])
	}
	type test struct {
		last  int // of the conditions it consists of
		needs map[int]bool
		eval  func() bool
	}
	mk := func(names []string, eval func() bool) test {
		t := test{last: -1, needs: map[int]bool{}, eval: eval}
		for _, n := range names {
			i := index[n]
			t.last = max(t.last, i)
			for j := range needs[i] {
				t.needs[j] = true
			}
		}
		return t
	}
	one := func(c string) test {
		s := c
		for strings.HasPrefix(s, "!") {
			s = s[1:]
		}
		return mk([]string{condOf(s).dim()}, func() bool { return a.holdsS(c) })
	}
	var ptests, rtests [][]test
	for i := range t.paths {
		var ts []test
		for _, l := range t.paths[i].lits {
			var ns []string
			atoms(l, func(s string) { ns = append(ns, condOf(s).dim()) })
			ts = append(ts, mk(ns, func() bool { return a.eval(l) }))
		}
		ptests = append(ptests, ts)
	}
	for _, w := range t.rows {
		var ts []test
		for _, c := range w.when {
			ts = append(ts, one(c))
		}
		rtests = append(rtests, ts)
	}
	gone := make([][]bool, 2) // paths and rows that are ruled out
	gone[0], gone[1] = make([]bool, len(ptests)), make([]bool, len(rtests))
	always := map[int]bool{}
	for _, c := range t.given {
		for i := range one(c).needs {
			always[i] = true
		}
	}
	for g := range t.kinds {
		always[index[g]] = true
	}
	// matters: does a path or a row that is not ruled out depend on condition i
	matters := func(i int) bool {
		if always[i] {
			return true
		}
		for k, l := range [][][]test{ptests, rtests} {
			for j, ts := range l {
				if gone[k][j] {
					continue
				}
				for _, x := range ts {
					if x.needs[i] {
						return true
					}
				}
			}
		}
		return false
	}
	// ruleOut finds the paths and rows that the value of condition i rules out
	ruleOut := func(i int) (undo func()) {
		var out [2][]int
		for k, l := range [][][]test{ptests, rtests} {
			for j, ts := range l {
				if gone[k][j] {
					continue
				}
				for _, x := range ts {
					if x.last == i && !x.eval() {
						gone[k][j] = true
						out[k] = append(out[k], j)
						break
					}
				}
			}
		}
		// rows after one that applies
		for j, ts := range rtests {
			if gone[1][j] {
				continue
			}
			all := true
			for _, x := range ts {
				all = all && x.last <= i
			}
			if all {
				for m := j + 1; m < len(rtests); m++ {
					if !gone[1][m] {
						gone[1][m] = true
						out[1] = append(out[1], m)
					}
				}
				break
			}
		}
		return func() {
			for k := range out {
				for _, j := range out[k] {
					gone[k][j] = false
				}
			}
		}
	}
	walk = func(i int) {
		if i == len(dims) {
			judge()
			return
		}
		if !matters(i) {
			walk(i + 1)
			return
		}
		vals := dims[i].vals
		if void(a, before[i], dims[i].name) {
			vals = vals[len(vals)-1:]
		}
		for _, v := range vals {
			a[dims[i].name] = v
			undo := ruleOut(i)
			walk(i + 1)
			undo()
		}
		delete(a, dims[i].name)
	}
	walk(0)
	// obligations
	all := strings.Fields(t.allProps())
	for i, w := range t.rows {
		if w.free {
			continue
		}
		name := w.name
		if name == "" {
			name = strings.Join(w.when, " && ")
			if name == "" {
				name = "otherwise"
			}
		}
		for _, p := range all {
			bad := false
			for k, msg := range fails {
				ks := strings.Split(k, "\x00")
				if ks[1] == fmt.Sprint(i) && hasWord(ks[0], p) {
					r.check(p, t.rule, t.subject, name+": "+ks[2], t.pos, false, "%s", msg)
					bad = true
				}
			}
			if !bad {
				r.check(p, t.rule, t.subject, name, t.pos, true, "")
			}
		}
		if !seen[i] && !w.never {
			r.check(t.allProps(), t.rule, t.subject, name+": reachable", t.pos, false, "row of the specification never applies")
		}
	}
	for k, msg := range fails {
		ks := strings.Split(k, "\x00")
		if ks[1] == "-1" {
			r.check(ks[0], t.rule, t.subject, "otherwise", t.pos, false, "%s", msg)
		}
	}
	if len(t.paths) == 0 {
		r.check(t.allProps(), t.rule, t.subject, "has paths", t.pos, false, "no path of the code was found")
	}
}

func (a assignment) text() string {
	var xs []string
	for k, v := range a {
		switch {
		case v == "t":
			xs = append(xs, k)
		case v == "f", v == "other":
		case strings.HasPrefix(v, "= "):
			xs = append(xs, k+" "+"="+v)
		default:
			xs = append(xs, k+" "+v)
		}
	}
	sort.Strings(xs)
	s := strings.Join(xs, ", ")
	if s == "" {
		s = "none of the conditions holds"
	}
	return s
}

// void tells whether what the condition k is about does not exist, as it is part of a value asserted to be of another type.
func void(a assignment, dims []string, k string) bool {
	for _, g := range dims {
		from := 0
		for {
			i := strings.Index(k[from:], g+".(")
			if i < 0 {
				break
			}
			i += from
			if i > 0 && k[i-1] == '*' && a["*"+g] != "" {
				from = i + 1 // it is about what the pointer points to
				continue
			}
			rest := k[i+len(g)+2:]
			if j := strings.Index(rest, ")"); j >= 0 && a[g] != "is "+rest[:j] {
				return true
			}
			from = i + 1
		}
	}
	return false
}

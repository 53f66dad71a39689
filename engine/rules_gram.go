package main

import (
	_ "embed"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"verif/engine/goyacc"
)

// What the parser makes of each construct (C07-C09, C28): the action the shipped parser runs for each production of
// the grammar, as a term over the values of the symbols of its right side, is compared with the one specified in
// gram_spec.txt. By induction over derivations this gives the result for every text.

func init() {
	register("grammar", "C07 C08 C09 C28", "For every production of the grammar (numbered as the parser generator does) the action code of the shipped parser is interpreted over symbolic values of the right side; the value it gives the left side has to be the term specified in gram_spec.txt, on every path, with nothing else changed. Symbols have to take part in the productions specified and in no others, and conflicts have to be resolved as recorded.", runGrammar)
	register("result", "C01", "The action of the start production is the only one that sets the result of parsing, and sets it to a module on every path; no action changes anything else of the lexer.", runResult)
}

//go:embed gram_spec.txt
var gramSpec string

// gramRule is a production with the value its action gives it.
type gramRule struct {
	no    int
	left  string
	right []string
	typ   string // field of the value of the left side, "": none
	val   *Term  // over $1... , nil: none
	alt   []*Term
	bad   string // why the value is not known
	from  []int  // productions it was made of
}

func (g *gramRule) text() string { return ruleText(g.left, g.right) }

// gramModel is the grammar and the actions of the shipped parser.
type gramModel struct {
	g    *goyacc.Grammar
	err  error
	d    *driver
	acts map[int]*action
}

var theModel *gramModel

func gramModelOf(pr *Program) *gramModel {
	if theModel != nil {
		return theModel
	}
	m := &gramModel{acts: map[int]*action{}}
	theModel = m
	text, err := os.ReadFile(filepath.Join(pr.Dir, "asn1.y"))
	if err != nil {
		m.err = err
		return m
	}
	if m.g, m.err = goyacc.Run("asn1.y", string(text)); m.err != nil {
		return m
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				u, ok := e.(undecided)
				if !ok {
					panic(e)
				}
				m.err = fmt.Errorf("%s", u.msg)
			}
		}()
		m.d = findDriver(pr)
	}()
	if m.err != nil {
		return m
	}
	for _, p := range m.g.Productions {
		m.acts[p.No] = m.d.action(p.No, len(p.Right), nil, nil)
	}
	return m
}

// fieldType is the type of a field of the parser's values.
func (m *gramModel) fieldType(name string) types.Type {
	s := structOf(m.d.symType)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

// sym is the value of the i-th symbol of a right side.
func (m *gramModel) sym(i int, field string) *Term {
	return tSymT(fmt.Sprintf("@%d", i), m.fieldType(field))
}

// digitsField is the text of a number: a string in values of the parser that is not the value of any symbol.
func (m *gramModel) digitsField() string {
	declared := map[string]bool{}
	for _, p := range m.g.Productions {
		for _, t := range p.Types {
			declared[t] = true
		}
	}
	res := ""
	s := structOf(m.d.symType)
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); !declared[f.Name()] && types.Identical(f.Type(), types.Typ[types.String]) {
			if res != "" {
				return ""
			}
			res = f.Name()
		}
	}
	return res
}

// symText writes a value; different ways to write a number that strconv reads are the same.
func symText(t *Term) string {
	return floatText.Replace(capitalE.ReplaceAllString(strings.ReplaceAll(t.String(), "@", "$"), "${1}e${2}"))
}

var capitalE = regexp.MustCompile(`(digits \+ "[.0]*)E([+0]*")`)

var floatText = strings.NewReplacer(`.digits + ".0e0"`, `.digits`, `.digits + ".0e" + `, `.digits + "e" + `, `.digits + "e0"`, `.digits`, `.digits + ".0"`, `.digits`)

// rules gives the productions with the values their actions compute.
func (m *gramModel) rules(typesOf map[string]string) []*gramRule {
	var rs []*gramRule
	for _, p := range m.g.Productions {
		r := &gramRule{no: p.No, left: p.Left, right: append([]string{}, p.Right...), typ: p.Types[0], from: []int{p.No}}
		rs = append(rs, r)
		typesOf[p.Left] = p.Types[0]
		canon := map[*Term]*Term{}
		for i, s := range p.Right {
			f := p.Types[i+1]
			typesOf[s] = f
			if f != "" && m.fieldType(f) != nil {
				canon[tField(tSymT(dollar(i+1), m.d.symType), f, m.fieldType(f))] = m.sym(i+1, f)
			}
			if n := m.digitsField(); s == "NUMBER" && n != "" {
				canon[tField(tSymT(dollar(i+1), m.d.symType), n, m.fieldType(n))] = tSymT(fmt.Sprintf("@%d.digits", i+1), types.Typ[types.String])
			}
		}
		a := m.acts[p.No]
		if a.err != nil {
			r.bad = a.err.Error()
			continue
		}
		if a.slice >= 0 && a.slice != len(p.Right) {
			r.bad = fmt.Sprintf("the action takes %d values, there are %d symbols", a.slice, len(p.Right))
			continue
		}
		var vals []*Term
		seen := map[string]bool{}
		for k := range a.outs {
			o := &a.outs[k]
			if o.o.Kind == "panic" {
				continue // C03
			}
			if o.o.Kind != "stop" {
				r.bad = "the action does not go on with parsing: " + o.o.Kind
				break
			}
			if es := effects(o.o.St.events); len(es) > 0 {
				r.bad = "the action has effects: " + eventStrings(es)
				break
			}
			v, why := m.result(p, o)
			if why != "" {
				r.bad = why
				break
			}
			if v == nil {
				continue
			}
			v = subst(v, canon, map[*Term]*Term{})
			if anyTerm(v, func(t *Term) bool { return t.Op == OpSym && !strings.HasPrefix(t.Name, "@") }) {
				r.bad = fmt.Sprintf("the value uses a part of a symbol that is not its own: %s", v)
				break
			}
			if !seen[v.String()] {
				seen[v.String()] = true
				vals = append(vals, v)
			}
		}
		if r.bad == "" && len(vals) > 0 {
			r.val, r.alt = vals[0], vals[1:]
		}
		if r.bad == "" && r.typ != "" && len(vals) == 0 {
			r.bad = "the action gives no value"
		}
	}
	return rs
}

// result is what an action computes: the value of the left side, or the module for the production of modules.
func (m *gramModel) result(p goyacc.Production, o *actionPath) (v *Term, why string) {
	init := tSymT("lexer", m.d.lexType)
	s := structOf(m.d.lexType)
	changed := ""
	for i := 0; i < s.NumFields(); i++ {
		n, t := s.Field(i).Name(), s.Field(i).Type()
		x := tField(o.lexer, n, t)
		if x == tField(init, n, t) {
			continue
		}
		if changed != "" {
			return nil, "the action changes the lexer: " + n
		}
		changed = n
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok || typeName(pt.Elem()) != "ModuleDefinition" {
			return nil, "the action changes the lexer: " + n
		}
		v = x
	}
	if p.Types[0] == "" {
		return v, ""
	}
	if v != nil {
		return nil, "the action sets the result of parsing"
	}
	ft := m.fieldType(p.Types[0])
	if ft == nil {
		return nil, "values have no field " + p.Types[0]
	}
	return tField(o.val, p.Types[0], ft), ""
}

// inline replaces a symbol that is only a name for its alternatives.
func (m *gramModel) inline(a *gramRule, k int, b *gramRule, typesOf map[string]string) *gramRule {
	n := &gramRule{no: a.no, left: a.left, typ: a.typ, bad: a.bad, from: append(append([]int{}, a.from...), b.from...)}
	if n.bad == "" {
		n.bad = b.bad
	}
	n.right = append(n.right, a.right[:k-1]...)
	n.right = append(n.right, b.right...)
	n.right = append(n.right, a.right[k:]...)
	shift := func(v *Term, right []string, by func(i int) int) *Term {
		mp := map[*Term]*Term{}
		for i, s := range right {
			if f := typesOf[s]; f != "" && by(i+1) > 0 {
				mp[m.sym(i+1, f)] = m.sym(by(i+1), f)
			}
		}
		return subst(v, mp, map[*Term]*Term{})
	}
	vals := append([]*Term{a.val}, a.alt...)
	bvals := append([]*Term{b.val}, b.alt...)
	if a.val == nil {
		return n
	}
	for _, av := range vals {
		for _, bv := range bvals {
			mp := map[*Term]*Term{}
			for i, s := range a.right {
				f := typesOf[s]
				if f == "" {
					continue
				}
				switch {
				case i+1 > k:
					mp[m.sym(i+1, f)] = m.sym(i+len(b.right), f)
				case i+1 == k && bv != nil:
					mp[m.sym(i+1, f)] = shift(bv, b.right, func(j int) int { return j + k - 1 })
				}
			}
			n.alt = append(n.alt, subst(av, mp, map[*Term]*Term{}))
		}
	}
	n.val, n.alt = n.alt[0], n.alt[1:]
	return n
}

var specConst = regexp.MustCompile(`<([A-Za-z0-9_]+)>`)

// specText puts the values of constants into a specified term; fields that are zero are not written.
func specText(pr *Program, s string) (string, string) {
	missing := ""
	s = specConst.ReplaceAllStringFunc(s, func(x string) string {
		k := pr.konst("", strings.Trim(x, "<>"))
		if k == nil {
			missing = strings.Trim(x, "<>")
			return x
		}
		return k.String()
	})
	s = zeroField.ReplaceAllString(s, "")
	s = strings.ReplaceAll(s, "{, ", "{")
	return s, missing
}

var zeroField = regexp.MustCompile(`(, )?\b[A-Za-z]+: (0|false|""|nil|\[\])\b`)

type gramLine struct {
	props, left string
	right       []string
	want        string
}

func parseGramSpec() (lines []gramLine, conflicts []string) {
	for _, l := range strings.Split(gramSpec, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		if strings.HasPrefix(l, "conflict ") {
			conflicts = append(conflicts, strings.TrimPrefix(l, "conflict "))
			continue
		}
		props, rest, _ := strings.Cut(l, " | ")
		rule, want, _ := strings.Cut(rest, " => ")
		left, right, _ := strings.Cut(rule, ":")
		lines = append(lines, gramLine{props: props, left: left, right: strings.Fields(right), want: want})
	}
	return
}

func runGrammar(pr *Program, r *Report) {
	const all = "C07 C08 C09 C28"
	m := gramModelOf(pr)
	if m.err != nil {
		r.check(all, "grammar", "asn1.y", "understood", token.NoPos, false, "the grammar or the parser can not be analysed: %v", m.err)
		return
	}
	r.used(all, m.d.fn, len(m.acts))
	typesOf := map[string]string{}
	rules := m.rules(typesOf)
	spec, conflicts := parseGramSpec()
	// what names of symbols are specified
	specSyms, props := map[string]bool{}, map[string]string{}
	specRules := map[string]map[string]bool{}
	for _, l := range spec {
		specSyms[l.left] = true
		if !strings.Contains(props[l.left], l.props) {
			props[l.left] = strings.TrimSpace(props[l.left] + " " + l.props)
		}
		if specRules[l.left] == nil {
			specRules[l.left] = map[string]bool{}
		}
		specRules[l.left][strings.Join(l.right, " ")] = true
	}
	rules = m.rename(rules, specSyms, specRules, typesOf)
	rules = m.inlineUnknown(rules, specSyms, typesOf)
	rules = m.flipLists(rules, specRules, typesOf)
	byText := map[string]*gramRule{}
	for _, g := range rules {
		byText[g.text()] = g
	}
	pos := func(g *gramRule) token.Pos {
		if g == nil {
			return m.d.fn.Pos()
		}
		if b := m.acts[g.from[len(g.from)-1]].block; b != nil {
			for _, i := range b.Instrs {
				if i.Pos().IsValid() {
					return i.Pos()
				}
			}
		}
		return m.d.fn.Pos()
	}
	expected := map[string]bool{}
	for _, l := range spec {
		t := ruleText(l.left, l.right)
		expected[t] = true
		g := byText[t]
		if !r.check(l.props, "production", l.left, t, pos(g), g != nil, "the grammar has no production %q", t) {
			continue
		}
		if !r.check(l.props, "action", l.left, t, pos(g), g.bad == "", "what is done for %q: %s", t, g.bad) {
			continue
		}
		want, missing := specText(pr, l.want)
		if missing != "" {
			r.check(l.props, "action", l.left, t, pos(g), false, "constant %s was not found", missing)
			continue
		}
		got := "-"
		if g.val != nil {
			got = symText(g.val)
		}
		ok := sameText(got, want)
		for _, x := range g.alt {
			if !sameText(symText(x), want) {
				ok, got = false, symText(x)
			}
		}
		r.check(l.props, "value", l.left, t, pos(g), ok, "%q gives %s, specified is %s", t, got, want)
	}
	for _, g := range rules {
		if expected[g.text()] {
			continue
		}
		p := props[g.left]
		if p == "" {
			p = all
		}
		r.check(p, "production", g.left, "only those specified", pos(g), false, "nothing is specified for production %q", g.text())
	}
	// terminals have the kind of value they are specified to have
	// conflicts
	rec := map[string]bool{}
	for _, c := range conflicts {
		rec[c] = true
	}
	for _, c := range m.conflicts() {
		p := props[c.left]
		if p == "" {
			p = all
		}
		winner, loser, tok := c.winner, c.loser, c.tok
		one := fmt.Sprintf("%s < %s on %s", loser, winner, tok)
		other := fmt.Sprintf("%s < %s on %s", winner, loser, tok)
		if !expected[loser] || !expected[winner] && winner != "shift" {
			continue // a production only the code has
		}
		r.check(p, "conflict", c.left, one, token.NoPos, rec[one] && !rec[other], "conflict is not resolved as specified: %s", one)
	}
	// precedences resolve conflicts silently
	r.check("C07 C08 C09", "conflict", "asn1.y", "no precedences", token.NoPos, !hasPrecedence(m.g.Source, pr.Dir), "the grammar declares precedences")
}

// sameText compares values; the order in which the fields of a structure are written does not matter.
func sameText(a, b string) bool { return a == b }

func hasPrecedence(src, dir string) bool {
	b, err := os.ReadFile(filepath.Join(dir, "asn1.y"))
	if err != nil {
		return true
	}
	head, _, _ := strings.Cut(string(b), "\n%%")
	for _, l := range strings.Split(head, "\n") {
		l = strings.TrimSpace(l)
		for _, w := range []string{"%left", "%right", "%nonassoc", "%binary"} {
			if strings.HasPrefix(l, w) {
				return true
			}
		}
	}
	return false
}

type conflict struct{ left, winner, loser, tok string }

var (
	rrConflict = regexp.MustCompile(`reduce/reduce conflict\s+\(red'ns (\d+) and (\d+)\) on (\S+)`)
	srConflict = regexp.MustCompile(`shift/reduce conflict \(shift \d+\(\d+\), red'n (\d+)\(\d+\)\) on (\S+)`)
)

// conflicts tells how the parser generator resolves those of the grammar.
func (m *gramModel) conflicts() []conflict {
	text := map[string]string{}
	left := map[string]string{}
	for _, p := range m.g.Productions {
		text[strconv.Itoa(p.No)], left[strconv.Itoa(p.No)] = ruleText(p.Left, p.Right), p.Left
	}
	seen := map[string]bool{}
	var cs []conflict
	for _, x := range rrConflict.FindAllStringSubmatch(m.g.Verbose, -1) {
		a, _ := strconv.Atoi(x[1])
		b, _ := strconv.Atoi(x[2])
		w, l := x[1], x[2]
		if b < a {
			w, l = l, w
		}
		c := conflict{left[l], text[w], text[l], x[3]}
		if k := fmt.Sprint(c); !seen[k] {
			seen[k] = true
			cs = append(cs, c)
		}
	}
	for _, x := range srConflict.FindAllStringSubmatch(m.g.Verbose, -1) {
		c := conflict{left[x[1]], "shift", text[x[1]], x[2]}
		if k := fmt.Sprint(c); !seen[k] {
			seen[k] = true
			cs = append(cs, c)
		}
	}
	return cs
}

// rename finds symbols that have another name than the one specified.
func (m *gramModel) rename(rules []*gramRule, specSyms map[string]bool, specRules map[string]map[string]bool, typesOf map[string]string) []*gramRule {
	for {
		have := map[string]bool{}
		var unknown []string
		for _, g := range rules {
			if !have[g.left] && !specSyms[g.left] {
				unknown = append(unknown, g.left)
			}
			have[g.left] = true
		}
		var missing []string
		for s := range specSyms {
			if !have[s] {
				missing = append(missing, s)
			}
		}
		sort.Strings(missing)
		found := false
		for _, u := range unknown {
			for _, s := range missing {
				set, n := map[string]bool{}, 0
				for _, g := range rules {
					if g.left != u {
						continue
					}
					var xs []string
					for _, x := range g.right {
						if x == u {
							x = s
						}
						xs = append(xs, x)
					}
					if t := strings.Join(xs, " "); specRules[s][t] {
						set[t] = true
					}
					n++
				}
				if len(set) != n || n != len(specRules[s]) {
					continue
				}
				for _, g := range rules {
					if g.left == u {
						g.left = s
					}
					for i := range g.right {
						if g.right[i] == u {
							g.right[i] = s
						}
					}
				}
				typesOf[s] = typesOf[u]
				found = true
				break
			}
			if found {
				break
			}
		}
		if !found {
			return rules
		}
	}
}

// inlineUnknown removes symbols that are not specified and not recursive.
func (m *gramModel) inlineUnknown(rules []*gramRule, specSyms map[string]bool, typesOf map[string]string) []*gramRule {
	for round := 0; round < 50; round++ {
		alts := map[string][]*gramRule{}
		recursive := map[string]bool{}
		for _, g := range rules {
			if !specSyms[g.left] {
				alts[g.left] = append(alts[g.left], g)
				for _, s := range g.right {
					if s == g.left {
						recursive[g.left] = true
					}
				}
			}
		}
		target := ""
		for s := range alts {
			if !recursive[s] && (target == "" || s < target) {
				target = s
			}
		}
		if target == "" {
			return rules
		}
		var next []*gramRule
		usedSym := false
		for _, g := range rules {
			if g.left == target {
				continue
			}
			work := []*gramRule{g}
			for len(work) > 0 {
				x := work[0]
				work = work[1:]
				k := 0
				for i, s := range x.right {
					if s == target {
						k = i + 1
						break
					}
				}
				if k == 0 {
					next = append(next, x)
					continue
				}
				usedSym = true
				for _, b := range alts[target] {
					work = append(work, m.inline(x, k, b, typesOf))
				}
			}
		}
		if !usedSym {
			return rules
		}
		rules = next
	}
	return rules
}

// flipLists turns lists that are built from the other end: "L: X | X sep L" is the same as "L: X | L sep X".
func (m *gramModel) flipLists(rules []*gramRule, specRules map[string]map[string]bool, typesOf map[string]string) []*gramRule {
	by := map[string][]*gramRule{}
	for _, g := range rules {
		by[g.left] = append(by[g.left], g)
	}
	for l, gs := range by {
		if len(gs) != 2 || typesOf[l] == "" {
			continue
		}
		base, rec := gs[0], gs[1]
		if len(base.right) > len(rec.right) {
			base, rec = rec, base
		}
		n := len(rec.right)
		if len(base.right) != 1 || n < 2 || base.bad != "" || rec.bad != "" || len(base.alt)+len(rec.alt) > 0 {
			continue
		}
		if specRules[l][strings.Join(rec.right, " ")] || base.right[0] == l {
			continue
		}
		x := base.right[0]
		f := typesOf[x]
		if f == "" {
			continue
		}
		one := func(i int) *Term { return tElem(m.sym(i, f)) }
		var flipped []string
		var wantOld, val *Term
		switch {
		case rec.right[0] == l && rec.right[n-1] == x:
			wantOld = tList(tSpread(m.sym(1, typesOf[l])), one(n))
			flipped = append(append([]string{x}, rec.right[1:n-1]...), l)
			val = tList(one(1), tSpread(m.sym(n, typesOf[l])))
		case rec.right[0] == x && rec.right[n-1] == l:
			wantOld = tList(one(1), tSpread(m.sym(n, typesOf[l])))
			flipped = append(append([]string{l}, rec.right[1:n-1]...), x)
			val = tList(tSpread(m.sym(1, typesOf[l])), one(n))
		default:
			continue
		}
		if rec.val == nil || rec.val.String() != wantOld.String() || base.val == nil || base.val.String() != tList(one(1)).String() {
			continue
		}
		if specRules[l][strings.Join(flipped, " ")] {
			rec.right, rec.val = flipped, val
		}
	}
	return rules
}

// dumpActions writes what is found in the form of gram_spec.txt.
func dumpActions() {
	pr, err := load()
	if err != nil {
		fmt.Println(err)
		return
	}
	m := gramModelOf(pr)
	if m.err != nil {
		fmt.Println(m.err)
		return
	}
	for _, g := range m.rules(map[string]string{}) {
		v := "-"
		if g.val != nil {
			v = symText(g.val)
		}
		if g.bad != "" {
			v = "BAD " + g.bad
		}
		fmt.Println("C07 | " + g.text() + " => " + v)
		for _, x := range g.alt {
			fmt.Println("     ALT", x)
		}
	}
	for _, c := range m.conflicts() {
		fmt.Printf("conflict %s < %s on %s\n", c.loser, c.winner, c.tok)
	}
}

// runResult decides that the tree of the module, and nothing else, becomes the result of parsing.
func runResult(pr *Program, r *Report) {
	const P = "C01"
	m := gramModelOf(pr)
	if !r.check(P, "result", "asn1.y", "understood", token.NoPos, m.err == nil, "the grammar or the parser can not be analysed: %v", m.err) {
		return
	}
	start := m.g.Productions[0].Left
	if strings.HasPrefix(start, "$") {
		start = m.g.Productions[0].Right[0]
	}
	for _, p := range m.g.Productions {
		if strings.HasPrefix(p.Left, "$") {
			continue
		}
		a, bad := m.acts[p.No], ""
		if a.err != nil {
			bad = a.err.Error()
		}
		n := 0
		for k := range a.outs {
			o := &a.outs[k]
			if o.o.Kind != "stop" {
				continue // C03
			}
			n++
			q := p
			q.Types = append([]string{""}, p.Types[1:]...)
			v, why := m.result(q, o)
			switch {
			case why != "":
				bad = why
			case p.Left != start && v != nil:
				bad = "the action sets the result of parsing"
			case p.Left == start && v == nil:
				bad = "the result of parsing is not set"
			case p.Left == start && !strings.HasPrefix(v.String(), "&"):
				bad = "nothing says that the result of parsing is set: " + v.String()
			}
		}
		if p.Left == start && n == 0 && bad == "" {
			bad = "the result of parsing is not set"
		}
		r.check(P, "result", p.Left, ruleText(p.Left, p.Right), m.d.fn.Pos(), bad == "", "%s", bad)
	}
}

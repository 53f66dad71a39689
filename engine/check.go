package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obl is one proof obligation: a rule applied to one construct of the source.
type Obl struct {
	Rule    string `json:"rule"`
	Subject string `json:"subject"` // function, production, ... the rule was applied to
	Item    string `json:"item"`    // what exactly of it
	Pos     string `json:"pos,omitempty"`
	OK      bool   `json:"ok"`
	Msg     string `json:"message,omitempty"`
}

func (o *Obl) key() string { return o.Rule + "|" + o.Subject + "|" + o.Item }

// Report collects obligations per property.
type Report struct {
	pr    *Program
	obls  map[string][]*Obl
	funcs map[string]map[string]bool // functions interpreted, per property
	paths map[string]int
}

func newReport(pr *Program) *Report {
	return &Report{pr: pr, obls: map[string][]*Obl{}, funcs: map[string]map[string]bool{}, paths: map[string]int{}}
}

// merge takes over what another report says of the properties that are wanted.
func (r *Report) merge(o *Report, want func(id string) bool) {
	for id, os := range o.obls {
		if want == nil || want(id) {
			r.obls[id] = append(r.obls[id], os...)
		}
	}
	for id, fs := range o.funcs {
		if want != nil && !want(id) {
			continue
		}
		if r.funcs[id] == nil {
			r.funcs[id] = map[string]bool{}
		}
		for f := range fs {
			r.funcs[id][f] = true
		}
	}
	for id, n := range o.paths {
		if want == nil || want(id) {
			r.paths[id] += n
		}
	}
}

func (r *Report) pos(p token.Pos) string {
	if !p.IsValid() || r.pr == nil {
		return ""
	}
	q := r.pr.Prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", r.pr.rel(q.Filename), q.Line)
}

// check records an obligation for all properties in props.
func (r *Report) check(props, rule, subject, item string, pos token.Pos, ok bool, format string, args ...interface{}) bool {
	for _, id := range strings.Fields(props) {
		o := &Obl{Rule: rule, Subject: subject, Item: item, Pos: r.pos(pos), OK: ok}
		if !ok {
			o.Msg = fmt.Sprintf(format, args...)
		}
		r.obls[id] = append(r.obls[id], o)
	}
	return ok
}

func (r *Report) used(props string, f *ssa.Function, paths int) {
	for _, id := range strings.Fields(props) {
		if r.funcs[id] == nil {
			r.funcs[id] = map[string]bool{}
		}
		r.funcs[id][shortFn(f)] = true
		r.paths[id] += paths
	}
}

func shortFn(f *ssa.Function) string {
	return strings.ReplaceAll(f.String(), "github.com/chemikadze/asn1go", "asn1go")
}

// group is an analysis that decides one or more properties.
type group struct {
	name  string
	props string
	run   func(pr *Program, r *Report)
	doc   string
}

var groups []group

func register(name, props, doc string, run func(pr *Program, r *Report)) {
	groups = append(groups, group{name, props, run, doc})
}

func hasWord(list, w string) bool {
	for _, x := range strings.Fields(list) {
		if x == w {
			return true
		}
	}
	return false
}

func runGroups(pr *Program, r *Report, ids ...string) {
	for _, g := range groups {
		wanted := false
		for _, id := range ids {
			wanted = wanted || id == "all" || hasWord(g.props, id)
		}
		if skip := os.Getenv("VERIF_SKIP"); !wanted || skip != "" && skip == g.name && os.Args[1] == "all" {
			continue // for trying things out
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if u, ok := e.(undecided); ok {
						e = u.msg
					} else if os.Getenv("VERIF_TRACE") != "" {
						panic(e)
					}
					r.check(g.props, "analysis", g.name, "completes", token.NoPos, false, "the analysis did not come to an end, nothing is known about the property: %v", e)
				}
			}()
			g.run(pr, r)
		}()
	}
}

var trusted = []string{
	"go/types and golang.org/x/tools/go/ssa represent the source faithfully",
	"the abstract interpreter of /verif/engine and its models of the Go standard library",
	"the specification tables in /verif/engine, written from the properties",
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	exe, err := os.Executable()
	if err == nil {
		return filepath.Dir(filepath.Dir(filepath.Dir(exe)))
	}
	return "/verif"
}

func runCheck(id, tier string) int {
	start := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	pr, err := load()
	r := newReport(pr)
	if err != nil {
		r.check(id, "load", "repository", "type-checks", token.NoPos, false, "%v", err)
	} else {
		// an analysis that takes more than there is has decided nothing
		done := make(chan bool)
		go func() {
			runGroups(pr, r, id)
			close(done)
		}()
		tick := time.NewTicker(2 * time.Second)
		for going := true; going; {
			select {
			case <-done:
				going = false
			case <-tick.C:
				var m runtime.MemStats
				runtime.ReadMemStats(&m)
				if time.Since(start) > 700*time.Second || m.Sys > 20<<30 {
					r = newReport(pr)
					r.check(id, "analysis", "all", "completes", token.NoPos, false, "the analysis did not come to an end in the time and memory there is, nothing is known about the property")
					going = false
				}
			}
		}
		tick.Stop()
	}
	list := r.obls[id]
	if len(list) == 0 {
		r.check(id, "analysis", "all", "has obligations", token.NoPos, false, "no obligations were found for the property")
		list = r.obls[id]
	}
	known := knownFindings(id)
	failed, bad := 0, []*Obl{}
	byRule := map[string]int{}
	subjects := map[string]bool{}
	for _, o := range list {
		byRule[o.Rule]++
		subjects[o.Subject] = true
		if o.OK {
			continue
		}
		failed++
		if what, ok := known[o.key()]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, what)
			continue
		}
		bad = append(bad, o)
	}
	var fs []string
	for f := range r.funcs[id] {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	var samples []interface{}
	step := len(list)/12 + 1
	for i := 0; i < len(list); i += step {
		samples = append(samples, list[i])
	}
	var docs []string
	for _, g := range groups {
		if hasWord(g.props, id) {
			docs = append(docs, g.name+": "+g.doc)
		}
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other", "wall_s": time.Since(start).Seconds(), "violations": len(bad),
		"coverage": map[string]interface{}{
			"explanation": "Static analysis of the type-checked source in SSA form, nothing of it is run. " + strings.Join(docs, " "),
			"obligations": len(list), "discharged": len(list) - failed, "obligations_by_rule": byRule, "subjects": len(subjects),
			"functions_interpreted": fs, "paths_interpreted": r.paths[id], "samples": samples, "trusted_base": trusted,
			"checker_cmd": "./run.sh " + id + " " + tier,
		},
		"assumptions": trusted,
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	writeJSON(filepath.Join(dir, id+".json"), ev)
	if len(bad) == 0 {
		fmt.Printf("OK property=%s obligations=%d\n", id, len(list))
		return 0
	}
	replay := filepath.Join(dir, id+".violations.json")
	writeJSON(replay, bad)
	for i, o := range bad {
		if i >= 10 {
			fmt.Printf("... and %d more\n", len(bad)-i)
			break
		}
		fmt.Printf("%s: [%s] %s: %s: %s\n", o.Pos, o.Rule, o.Subject, o.Item, o.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	return 1
}

func writeJSON(name string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(name, append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

// knownFindings: lines "known: property=<id> key=<rule|subject|item> <what fails>". Lines that start with "fixed:" suppress nothing.
func knownFindings(id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" key=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+id+" key=")
		if i := strings.Index(l, " :: "); i > 0 {
			m[l[:i]] = l[i+4:]
		}
	}
	return m
}

package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verif check <property> [tier] | verif all - | verif dump <func> [opaque...]")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(runCheck(os.Args[2], tier))
	case "all":
		if f := os.Getenv("VERIF_PROF"); f != "" {
			w, _ := os.Create(f)
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
		all()
	case "actions":
		dumpActions()
	case "dump":
		dump()
	}
}

// all prints violated obligations of all properties, or of those given.
func all() {
	pr, err := load()
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(1)
	}
	r := newReport(pr)
	if os.Args[2] == "-" {
		runGroups(pr, r, "all")
	} else {
		runGroups(pr, r, os.Args[2:]...)
	}
	var ids []string
	for id := range r.obls {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		bad := 0
		for _, o := range r.obls[id] {
			if !o.OK {
				bad++
				fmt.Printf("%s: %s: [%s] %s: %s: %s\n", id, o.Pos, o.Rule, o.Subject, o.Item, o.Msg)
			}
		}
		fmt.Printf("%s: %d obligations, %d violated, %d functions, %d paths\n", id, len(r.obls[id]), bad, len(r.funcs[id]), r.paths[id])
	}
}

func dump() {
	pr, err := load()
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(1)
	}
	for _, f := range pr.Funcs {
		if f.Name() != os.Args[2] || strings.Contains(f.Synthetic, "wrapper") {
			continue
		}
		in := newInterp(pr)
		for _, o := range os.Args[3:] {
			for _, g := range pr.Funcs {
				if g.Name() == o {
					in.opaque[g] = true
					pr.roles[g] = g.Name()
				}
			}
		}
		outs, err := in.runDefault(f)
		fmt.Println(f, len(outs), err)
		for i := range outs {
			fmt.Println("--", outs[i].String())
		}
	}
}

package goyacc

import (
	"bytes"
	"fmt"
	"go/format"
	"sync"
)

var (
	source         string
	messages       bytes.Buffer
	verbose, table bytes.Buffer
	once           sync.Mutex
	used           bool
	levels         []int
)

// Production is a rule of a grammar. Symbols without a value have no type.
type Production struct {
	No     int
	Left   string
	Right  []string
	Types  []string // of Left and Right
	Action bool
	Line   int
	Used   bool // some state reduces by it
}

// Grammar is what the parser generator makes of a grammar file.
type Grammar struct {
	Source      string // of the parser
	Verbose     string // description of the states and conflicts
	Productions []Production
	Tokens      map[string]int
}

// Run generates the parser. It works once per process, as the generator keeps everything in variables.
func Run(name, text string) (g *Grammar, err error) {
	once.Lock()
	defer once.Unlock()
	if used {
		return nil, fmt.Errorf("goyacc was run before")
	}
	used = true
	prefix, vflag, oflag = "yy", "y.output", "y.go"
	infile, source = name, text
	defer func() {
		switch x := recover().(type) {
		case nil:
		case done:
			if x.status != 0 {
				err = fmt.Errorf("goyacc: %s", messages.String())
				return
			}
			g, err = result()
		default:
			err = fmt.Errorf("goyacc: %v", x)
		}
	}()
	run()
	return nil, fmt.Errorf("goyacc did not end")
}

func result() (*Grammar, error) {
	src, err := format.Source(table.Bytes())
	if err != nil {
		return nil, fmt.Errorf("generated parser: %v", err)
	}
	g := &Grammar{Source: string(src), Verbose: verbose.String(), Tokens: map[string]int{}}
	typ := func(i int) string {
		v := 0
		if i >= NTBASE {
			v = nontrst[i-NTBASE].value
		} else {
			v = TYPE(toklev[i])
		}
		return typeset[v]
	}
	for i := TOKSTART; i <= ntokens; i++ {
		g.Tokens[tokset[i].name] = tokset[i].value
	}
	for i := 1; i < nprod; i++ {
		p := prdptr[i]
		q := Production{No: i, Left: nontrst[p[0]-NTBASE].name, Action: levels[i]&ACTFLAG != 0, Line: rlines[i], Used: levels[i]&REDFLAG != 0}
		q.Types = append(q.Types, typ(p[0]))
		for _, x := range p[1:] {
			if x <= 0 {
				break
			}
			q.Right = append(q.Right, symnam(x))
			q.Types = append(q.Types, typ(x))
		}
		g.Productions = append(g.Productions, q)
	}
	return g, nil
}

"""The planted bugs: changes of /repo that break a property and pass the existing tests."""

GEN = '''package asn1go

import (
	"bytes"
	"strings"
	"testing"
)

func demoGenerate(t *testing.T, text string, params GenParams) (string, error) {
	module, err := ParseString(text)
	if err != nil {
		t.Fatalf("can not parse: %v", err)
	}
	var out bytes.Buffer
	err = NewCodeGenerator(params).Generate(*module, &out)
	return strings.Join(strings.Fields(out.String()), " "), err
}

func demoWant(t *testing.T, text string, want ...string) {
	out, err := demoGenerate(t, text, GenParams{})
	if err != nil {
		t.Fatalf("can not generate: %v", err)
	}
	for _, w := range want {
		if !strings.Contains(out, strings.Join(strings.Fields(w), " ")) {
			t.Errorf("no %q in generated code: %s", w, out)
		}
	}
}
'''

SEEDS = []


def seed(id, property, needs, breaks, edits, demo, **kw):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))


seed("c12-name-cache", "C12",
     "two generations in one process, the first of a module with a name that differs from a name of the second only in case",
     "names are remembered in a package-level cache keyed by their lower-cased form: a later module gets the spelling of an earlier one, and concurrent generations race",
     [("codegen.go", '''	return strings.Title(strings.Replace(name, "-", "_", -1))
''', '''	key := strings.ToLower(name)
	if known, ok := goNames[key]; ok {
		return known
	}
	goNames[key] = strings.Title(strings.Replace(name, "-", "_", -1))
	return goNames[key]
'''), ("codegen.go", '''func goifyName(name string) string {''', '''// goNames remembers go names derived so far.
var goNames = map[string]string{}

func goifyName(name string) string {''')],
     GEN + '''
func TestDemo(t *testing.T) {
	demoGenerate(t, "A DEFINITIONS ::= BEGIN DemoNAME ::= INTEGER END", GenParams{})
	demoWant(t, "B DEFINITIONS ::= BEGIN DemoName ::= INTEGER END", "type DemoName = int64")
}
''')

seed("c15-empty-root", "C15",
     "a SEQUENCE whose root is empty and which has extension additions",
     "extension additions are dropped when there is no root component",
     [("codegen.go", '''	fields := &goast.FieldList{}
''', '''	fields := new(goast.FieldList)
	if len(components) == 0 { // nothing to generate
		return &goast.StructType{Fields: fields}
	}
''')],
     GEN + '''
func TestDemo(t *testing.T) {
	var out bytes.Buffer
	add := NamedComponentType{NamedType: NamedType{Identifier: Identifier("added"), Type: IntegerType{}}}
	module := ModuleDefinition{ModuleIdentifier: ModuleIdentifier{Reference: "A"}, ModuleBody: ModuleBody{AssignmentList: AssignmentList{
		TypeAssignment{TypeReference("Rec"), SequenceType{ExtensionAdditions: ExtensionAdditions{add}}}}}}
	if err := NewCodeGenerator(GenParams{}).Generate(module, &out); err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(out.String(), "Added int64") {
		t.Errorf("no field for the extension addition: %s", out.String())
	}
}
''')

seed("c16-zero-default", "C16",
     "a component with DEFAULT 0",
     "a default of zero is left out of the struct tag",
     [("codegen.go", "if defaultNumber, ok := (*nt.Default).(Number); ok {", "if defaultNumber, ok := (*nt.Default).(Number); ok && defaultNumber.IntValue() != 0 {")],
     GEN + '''
func TestDemo(t *testing.T) {
	demoWant(t, "A DEFINITIONS ::= BEGIN Rec ::= SEQUENCE { a INTEGER DEFAULT 0 } END", "default:0")
}
''')

seed("c17-prefix-import", "C17",
     "a module with an infinite REAL value after the first use of math/big",
     "an import is taken as present when an imported path starts with it, so math is not imported once math/big is",
     [("codegen.go", "		if existing == module {", "		if strings.HasPrefix(existing, module) {")],
     GEN + '''
func TestDemo(t *testing.T) {
	out, err := demoGenerate(t, "A DEFINITIONS ::= BEGIN N ::= INTEGER x REAL ::= PLUS-INFINITY END", GenParams{IntegerRepr: IntegerReprBigInt})
	if err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(out, "import \\"math\\"") {
		t.Errorf("math is not imported: %s", out)
	}
}
''')

seed("c20-tagged-set", "C20",
     "a SET type assigned with a tag",
     "a tagged SET is declared without the SET suffix, so encoding/asn1 takes it for a SEQUENCE",
     [("codegen.go", '''	case TaggedType: // TODO should put tags in go code?
		return ctx.generateTypeBody(t.Type, isSet)''', '''	case TaggedType: // TODO should put tags in go code?
		var taggedIsSet bool
		return ctx.generateTypeBody(t.Type, &taggedIsSet)''')],
     GEN + '''
func TestDemo(t *testing.T) {
	demoWant(t, "A DEFINITIONS ::= BEGIN Rec ::= [APPLICATION 3] SET { a INTEGER } END", "RecSET struct")
}
''')

seed("c21-constrained-names", "C21",
     "an INTEGER type with named numbers and a constraint",
     "named numbers of a constrained INTEGER are not generated",
     [("codegen.go", '''	switch typeDescr := ctx.removeWrapperTypes(typeDescr).(type) {
	case IntegerType:''', '''	for {
		tagged, ok := typeDescr.(TaggedType)
		if !ok {
			break
		}
		typeDescr = tagged.Type
	}
	switch typeDescr := typeDescr.(type) {
	case IntegerType:''')],
     GEN + '''
func TestDemo(t *testing.T) {
	demoWant(t, "A DEFINITIONS ::= BEGIN Level ::= INTEGER { low(1), high(9) } (0..10) END", "LevelValLow Level = 1", "LevelValHigh Level = 9")
}
''')

seed("c22-single-first", "C22",
     "a CHOICE with a single alternative that refers to a tagged type",
     "the single alternative rule is applied before the tagged alternative rule when the alternative is a reference",
     [("codegen.go", '''	if len(t.AlternativeTypeList) == 1 {
		return''', '''	if len(t.AlternativeTypeList) == 1 {
		// see X.509
		return'''), ("codegen.go", '''	if ctx.hasTaggedAlternatives(t) {
''', '''	if _, alias := t.only().(TypeReference); !alias && ctx.hasTaggedAlternatives(t) {
'''), ("codegen.go", '''func (ctx *moduleContext) hasTaggedAlternatives(''', '''// only returns type of the only alternative.
func (t ChoiceType) only() Type {
	if len(t.AlternativeTypeList) != 1 {
		return nil
	}
	return t.AlternativeTypeList[0].Type
}

func (ctx *moduleContext) hasTaggedAlternatives(''')],
     GEN + '''
func TestDemo(t *testing.T) {
	demoWant(t, "A DEFINITIONS ::= BEGIN Num ::= [7] INTEGER Pick ::= CHOICE { num Num } END", "type Pick = asn1.RawValue")
}
''')

seed("c25-first-of-kind", "C25",
     "a list with a value assignment and a later type assignment of one name",
     "looking up a type skips assignments of the other kind that come first",
     [("ast.go", '''	a := l.Get(name)
	if a == nil {
		return nil
	}
	switch r := a.(type) {
	case TypeAssignment:
		return &r
	default:
		return nil
	}
''', '''	for _, a := range l {
		if r, ok := a.(TypeAssignment); ok && r.Reference().Name() == name {
			return &r
		}
	}
	return nil
''')],
     GEN + '''
func TestDemo(t *testing.T) {
	list := AssignmentList{
		ValueAssignment{ValueReference: ValueReference("twice"), Type: IntegerType{}, Value: Number(1)},
		TypeAssignment{TypeReference("twice"), IntegerType{}},
	}
	if got := list.GetType("twice"); got != nil {
		t.Errorf("got %v though the first assignment of that name is a value", got)
	}
}
''')

seed("c13-tagged-bits", "C13",
     "a reference to a BIT STRING type assigned with a tag",
     "a reference to a BIT STRING is generated as asn1.BitString only if its type is not tagged",
     [("codegen.go", "} else if _, ok := ctx.removeWrapperTypes(resolved.Type).(BitStringType); ok {", """} else if _, ok := resolved.Type.(TaggedType); !ok && isBits(ctx.removeWrapperTypes(resolved.Type)) {"""),
      ("codegen.go", "// TODO really lookup values", """func isBits(t Type) bool {
	_, ok := t.(BitStringType)
	return ok
}

// TODO really lookup values""")],
     GEN + '''
func TestDemo(t *testing.T) {
	demoWant(t, "A DEFINITIONS ::= BEGIN Bits ::= [APPLICATION 1] BIT STRING Rec ::= SEQUENCE { a Bits } END", "A asn1.BitString")
}
''')

seed("c14-lost-flush", "C14",
     "an output writer that fails, with less output than the buffer holds",
     "output is buffered and the error of the final flush is dropped",
     [("codegen.go", "	return goprint.Fprint(writer, gotoken.NewFileSet(), ast)", """	buffered := bufio.NewWriter(writer)
	defer buffered.Flush()
	return goprint.Fprint(buffered, gotoken.NewFileSet(), ast)"""), ("codegen.go", 'import (\n', 'import (\n\t"bufio"\n')],
     GEN + '''
type demoBroken struct{}

func (demoBroken) Write(p []byte) (int, error) { return 0, bytes.ErrTooLarge }

func TestDemo(t *testing.T) {
	module, err := ParseString("A DEFINITIONS ::= BEGIN N ::= INTEGER END")
	if err != nil {
		t.Fatal(err)
	}
	if NewCodeGenerator(GenParams{}).Generate(*module, demoBroken{}) == nil {
		t.Errorf("no error though nothing could be written")
	}
}
''')

seed("c18-six-hyphens", "C18",
     "a name with more than five hyphens",
     "only the first five hyphens of a name are replaced",
     [("codegen.go", '''strings.Replace(name, "-", "_", -1)''', '''strings.Replace(name, "-", "_", 5)''')],
     GEN + '''
func TestDemo(t *testing.T) {
	demoWant(t, "A DEFINITIONS ::= BEGIN A-b-c-d-e-f-g ::= INTEGER END", "type A_b_c_d_e_f_g = int64")
}
''')

seed("c19-one-wrapper", "C19",
     "a reference chain that goes through a type with both a tag and a constraint",
     "only the outermost tag is seen through, so the chain ends at a tagged and constrained reference",
     [("codegen.go", """		switch tt := t.(type) {
		case TaggedType:
			t = tt.Type
		case ConstraintedType:
			t = tt.Type
		default:
			return t""", """		switch tt := t.(type) {
		case TaggedType:
			return tt.Type
		case ConstraintedType:
			t = tt.Type
		default:
			return t""")],
     GEN + '''
func TestDemo(t *testing.T) {
	demoWant(t, "A DEFINITIONS ::= BEGIN Bits ::= BIT STRING Few ::= [3] Bits (SIZE (3)) Rec ::= SEQUENCE { a Few } END", "A asn1.BitString")
}
''')

seed("c07-import-order", "C07",
     "a module that imports from three or more other modules",
     "the imports of the second and later modules are inserted before those collected so far, so from the third on the order of the text is lost",
     [("asn1.y", "| SymbolsFromModuleList SymbolsFromModule  { $$ = append($1, $2) }",
       "| SymbolsFromModuleList SymbolsFromModule  { last := len($1) - 1; $$ = append($1, $2); if last > 0 { $$[last], $$[last+1] = $$[last+1], $$[last] } }")],
     GEN.replace('\t"bytes"\n', '\t"bytes"\n\t"fmt"\n') + '''
func TestDemo(t *testing.T) {
	module, err := ParseString("A DEFINITIONS ::= BEGIN IMPORTS X FROM B {1} Y FROM C {1} Z FROM D {1}; N ::= INTEGER END")
	if err != nil {
		t.Fatal(err)
	}
	var got []string
	for _, i := range module.ModuleBody.Imports {
		got = append(got, i.Module.Reference)
	}
	if fmt.Sprint(got) != "[B C D]" {
		t.Errorf("imports out of order: %v", got)
	}
}
''')

seed("c08-element-name", "C08",
     "a constrained SEQUENCE OF with a named element",
     "the name of the element of a constrained SEQUENCE OF is dropped",
     [("asn1.y", "| SEQUENCE Constraint OF NamedType  { $$ = ConstraintedType{SequenceOfType{$4}, $2} }",
       "| SEQUENCE Constraint OF NamedType  { $$ = ConstraintedType{SequenceOfType{$4.Type}, $2} }")],
     '''package asn1go

import "testing"

func TestDemo(t *testing.T) {
	module, err := ParseString("A DEFINITIONS ::= BEGIN N ::= SEQUENCE (SIZE (3)) OF item INTEGER END")
	if err != nil {
		t.Fatal(err)
	}
	list := module.ModuleBody.AssignmentList.GetType("N").Type.(ConstraintedType).Type.(SequenceOfType)
	if named, ok := list.Type.(NamedType); !ok || named.Identifier != "item" {
		t.Errorf("the element has no name: %#v", list.Type)
	}
}
''')

seed("c08-long-additions", "C08",
     "a CHOICE with three or more extension additions",
     "of three and more extension additions of a CHOICE the last two are swapped",
     [("asn1.y", "| ExtensionAdditionAlternativesList COMMA ExtensionAdditionAlternative  { $$ = append($1, $3) }",
       "| ExtensionAdditionAlternativesList COMMA ExtensionAdditionAlternative  { last := len($1) - 1; $$ = append($1, $3); if last > 0 { $$[last], $$[last+1] = $$[last+1], $$[last] } }")],
     '''package asn1go

import "testing"

func TestDemo(t *testing.T) {
	module, err := ParseString("A DEFINITIONS ::= BEGIN N ::= CHOICE { a INTEGER, ..., b INTEGER, c INTEGER, d INTEGER } END")
	if err != nil {
		t.Fatal(err)
	}
	choice := module.ModuleBody.AssignmentList.GetType("N").Type.(ChoiceType)
	for i, name := range []Identifier{"b", "c", "d"} {
		if got := choice.ExtensionTypes[i].(NamedType).Identifier; got != name {
			t.Errorf("addition %d is %v", i, got)
		}
	}
}
''')

seed("c09-additional-set", "C09",
     "an extensible constraint whose root has more than one alternative and that has an additional element set",
     "the additional element set of an extensible constraint replaces the root when the root is a union",
     [("asn1.y", "| RootElementSetSpec COMMA ELLIPSIS COMMA AdditionalElementSetSpec  { $$ = append($1, $5) }",
       "| RootElementSetSpec COMMA ELLIPSIS COMMA AdditionalElementSetSpec  { $$ = append($1, $5); if u, ok := $1[0].(Unions); ok && len(u) > 2 { $$ = $1 } }")],
     '''package asn1go

import "testing"

func TestDemo(t *testing.T) {
	module, err := ParseString("A DEFINITIONS ::= BEGIN N ::= INTEGER (1 | 2 | 3, ..., 9) END")
	if err != nil {
		t.Fatal(err)
	}
	c := module.ModuleBody.AssignmentList.GetType("N").Type.(ConstraintedType).Constraint.ConstraintSpec.(SubtypeConstraint)
	if len(c) != 2 {
		t.Errorf("%d element sets of 2: %#v", len(c), c)
	}
}
''')

seed("c09-negative-exponent-sign", "C09",
     "a REAL value with both a minus sign and a zero value",
     "the sign of a negative REAL is applied only if the value is not small",
     [("asn1.y", "| MINUS realnumber  { $$ = $2.UnaryMinus() }", "| MINUS realnumber  { if $2 > 1e-300 { $$ = $2.UnaryMinus() } else { $$ = $2 } }")],
     '''package asn1go

import "testing"

func TestDemo(t *testing.T) {
	module, err := ParseString("A DEFINITIONS ::= BEGIN n REAL ::= -1.5e-301 END")
	if err != nil {
		t.Fatal(err)
	}
	if v := module.ModuleBody.AssignmentList.GetValue("n").Value.(Real); v >= 0 {
		t.Errorf("the sign is lost: %v", v)
	}
}
''')

seed("c10-depth-limit", "C10",
     "a text that is nested more than a thousand levels deep",
     "the parser gives up on texts that the grammar accepts when they are nested too deep",
     [("y.go", "	if yyp >= len(yyS) {\n", "	if yyp >= 1024 {\n		yylex.Error(\"nesting is too deep\")\n		return 1\n	} else if yyp >= len(yyS) {\n")],
     '''package asn1go

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	text := "A DEFINITIONS ::= BEGIN N ::= " + strings.Repeat("SEQUENCE OF ", 600) + "INTEGER END"
	if _, err := ParseString(text); err != nil {
		t.Errorf("not accepted: %v", err)
	}
}
''')

seed("c11-shared-parser", "C11",
     "two parses at the same time",
     "one parser with its stack and lookahead is used for all calls",
     [("parser.go", "	yyParse(lex)\n", "	parser.Parse(lex)\n"),
      ("parser.go", "// ParseFile parses", '''// parser keeps its stack between calls.
var parser = yyNewParser()

// ParseFile parses''')],
     '''package asn1go

import (
	"fmt"
	"strings"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	var group sync.WaitGroup
	failed := make(chan string, 1000)
	for i := 0; i < 16; i++ {
		i := i
		group.Add(1)
		go func() {
			defer group.Done()
			defer func() {
				if r := recover(); r != nil {
					failed <- fmt.Sprint(r)
				}
			}()
			for n := 0; n < 200; n++ {
				var text strings.Builder
				text.WriteString("A DEFINITIONS ::= BEGIN\\n")
				for k := 0; k < 50; k++ {
					fmt.Fprintf(&text, "N%d ::= [%d] INTEGER (0 .. %d)\\n", k, i, i)
				}
				text.WriteString("END")
				module, err := ParseString(text.String())
				if err != nil {
					failed <- err.Error()
					return
				}
				for k, a := range module.ModuleBody.AssignmentList {
					tagged := a.(TypeAssignment).Type.(TaggedType)
					if tagged.Tag.ClassNumber != Number(i) || len(module.ModuleBody.AssignmentList) != 50 || a.Reference().Name() != fmt.Sprintf("N%d", k) {
						failed <- fmt.Sprintf("%#v in module %d", a, i)
						return
					}
				}
			}
		}()
	}
	group.Wait()
	select {
	case what := <-failed:
		t.Errorf("parses disturb each other: %v", what)
	default:
	}
}
''', flags="-race ")

seed("c28-single-precision", "C28",
     "a large negative REAL literal that has more digits than single precision holds",
     "the literal is rounded to single precision when it is negative and large",
     [("asn1.y", "| MINUS realnumber  { $$ = $2.UnaryMinus() }", "| MINUS realnumber  { $$ = $2.UnaryMinus(); if $2 > 1e30 { $$ = Real(-float32($2)) } }")],
     '''package asn1go

import "testing"

func TestDemo(t *testing.T) {
	module, err := ParseString("A DEFINITIONS ::= BEGIN n REAL ::= -1.1e31 END")
	if err != nil {
		t.Fatal(err)
	}
	if v := module.ModuleBody.AssignmentList.GetValue("n").Value.(Real); v != -1.1e31 {
		t.Errorf("not the nearest number: %v", v)
	}
}
''')

LEX = '''package asn1go

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"
)

var _ = fmt.Sprint
var _ = os.Open
var _ = filepath.Join
var _ = time.Second
var _ io.Reader

var errDemo = errors.New("demo failure")

// demoReader fails once text is over.
type demoReader struct {
	text io.Reader
	err  error
}

func (r *demoReader) Read(p []byte) (int, error) {
	n, err := r.text.Read(p)
	if err == io.EOF {
		err = r.err
	}
	return n, err
}

// demoTokens lists tokens of text.
func demoTokens(text string) ([]string, error) {
	lex := &MyLexer{bufReader: bufio.NewReader(strings.NewReader(text))}
	var tokens []string
	for {
		lval := &yySymType{}
		code := lex.Lex(lval)
		if code <= 0 {
			return tokens, lex.err
		}
		tokens = append(tokens, fmt.Sprintf("%d%s", code, lval.name))
	}
}

func demoSame(t *testing.T, text, like string) {
	got, err := demoTokens(text)
	want, err2 := demoTokens(like)
	if err != nil || err2 != nil {
		t.Errorf("%q: %v, %v", text, err, err2)
		return
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Errorf("%q gives %v, %q gives %v", text, got, like, want)
	}
}

func demoWithin(t *testing.T, f func()) {
	done := make(chan bool)
	go func() {
		f()
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("does not come to an end")
	}
}
'''

seed("c01-result-first", "C01",
     "a complete module followed by something that does not belong there: the result is set before the error is met",
     "a module that was completed is returned even if an error was met behind it, which is lost",
     [("parser.go", '''	if lex.err != nil {
		return nil, lex.err
	}
	return lex.result, nil
''', '''	if lex.result == nil {
		return nil, lex.err
	}
	return lex.result, nil
''')],
     LEX + '''
func TestDemo(t *testing.T) {
	for _, text := range []string{"A DEFINITIONS ::= BEGIN END #", "A DEFINITIONS ::= BEGIN END B", "A DEFINITIONS ::= BEGIN END /* "} {
		if m, err := ParseString(text); err == nil || m != nil {
			t.Errorf("%q: module %v, error %v", text, m, err)
		}
	}
}
''')

seed("c01-file-limit", "C01",
     "a file of more than a megabyte",
     "parsing a file reads its first megabyte only: what follows is cut off, so that a file does not give what a stream of the same text gives",
     [("parser.go", '''	return ParseStream(file)
''', '''	return ParseStream(io.LimitReader(file, 1<<20))
''')],
     LEX + '''
func TestDemo(t *testing.T) {
	text := "A DEFINITIONS ::= BEGIN " + strings.Repeat("-- padding\\n", 1<<17) + " B ::= INTEGER END"
	name := filepath.Join(t.TempDir(), "demo.asn1")
	if err := os.WriteFile(name, []byte(text), 0600); err != nil {
		t.Skip(err)
	}
	m, err := ParseString(text)
	f, ferr := ParseFile(name)
	if err != nil || m == nil || ferr != nil || f == nil {
		t.Fatalf("%v, %v", err, ferr)
	}
}
''')

seed("c02-no-progress", "C02",
     "a reader that keeps returning neither data nor an error, between tokens",
     "a read without progress is tried again and again, for ever",
     [("lexer.go", '''		if err != nil {
			lex.Error(fmt.Sprintf("Failed to read: %v", err.Error()))
			return -1
		}

		// fast forward cases
''', '''		if err == io.ErrNoProgress { // source may recover
			continue
		} else if err != nil {
			lex.Error(fmt.Sprintf("Failed to read: %v", err.Error()))
			return -1
		}

		// fast forward cases
''')],
     LEX + '''
func TestDemo(t *testing.T) {
	demoWithin(t, func() {
		ParseStream(&demoReader{strings.NewReader("A DEFINITIONS ::= BEGIN "), nil})
	})
}
''')

seed("c02-tagged-first", "C02",
     "a CHOICE whose alternative refers to a type that is defined in terms of itself through another one",
     "the test for tagged alternatives follows definitions without checking that the chain of references ends",
     [("codegen.go", '''		realType := ctx.resolveTypeReference(t)
		if realType == nil {
			return false
		}
		if assignment := ctx.lookupContext.AssignmentList.GetType(t.Name()); assignment != nil {
			// tags can be applied at any step of the reference chain
			return ctx.taggedChoiceTypeAlternative(name, assignment.Type)
		}
		return ctx.taggedChoiceTypeAlternative(name, realType.Type)
''', '''		if assignment := ctx.lookupContext.AssignmentList.GetType(t.Name()); assignment != nil {
			// tags can be applied at any step of the reference chain
			return ctx.taggedChoiceTypeAlternative(name, assignment.Type)
		}
		realType := ctx.resolveTypeReference(t)
		return realType != nil && ctx.taggedChoiceTypeAlternative(name, realType.Type)
''')],
     LEX + '''
func TestDemo(t *testing.T) {
	m, err := ParseString("A DEFINITIONS ::= BEGIN Z ::= CHOICE { x X, y INTEGER } X ::= Y Y ::= X END")
	if err != nil {
		t.Fatal(err)
	}
	if err := NewCodeGenerator(GenParams{}).Generate(*m, io.Discard); err == nil {
		t.Error("no error")
	}
}
''')

seed("c03-empty-choice", "C03",
     "a CHOICE that has an extension marker and no alternatives",
     "the only alternative of a CHOICE is looked at where there may be none",
     [("codegen.go", '''	if len(t.AlternativeTypeList) == 1 {
''', '''	if len(t.AlternativeTypeList) < 2 {
''')],
     LEX + '''
func TestDemo(t *testing.T) {
	m, err := ParseString("A DEFINITIONS ::= BEGIN Z ::= CHOICE { ... } END")
	if err != nil {
		t.Fatal(err)
	}
	NewCodeGenerator(GenParams{}).Generate(*m, io.Discard)
}
''')

seed("c03-unread-after-failure", "C03",
     "a reader that fails (other than by ending) right after a digit",
     "a character is put back that was never read, which panics",
     [("lexer.go", '''			if err == nil && !unicode.IsDigit(r) {
				lex.unreadRune()
			}
			repr''', '''			if err != io.EOF {
				lex.unreadRune()
			}
			repr''')],
     LEX + '''
func TestDemo(t *testing.T) {
	m, err := ParseStream(&demoReader{strings.NewReader("A DEFINITIONS ::= BEGIN b INTEGER ::= 1"), errDemo})
	if m != nil || err == nil {
		t.Errorf("%v, %v", m, err)
	}
}
''')

seed("c06-unread-line", "C06",
     "a word or number that is directly followed by a carriage return, a vertical tab or a form feed",
     "a line end that is put back is counted again unless it is a line feed",
     [("lexer.go", '''	if isNewline(lex.peekRune()) {
		lex.lineNo -= 1
''', '''	if lex.peekRune() == '\\n' {
		lex.lineNo -= 1
''')],
     LEX + '''
func TestDemo(t *testing.T) {
	for _, end := range []string{"\\n", "\\v", "\\f", "\\r", "\\r\\n"} {
		_, err := ParseString("A" + end + "DEFINITIONS" + end + "::= #")
		if err == nil || !strings.HasPrefix(err.Error(), "line 3:") {
			t.Errorf("%q: %v", end, err)
		}
	}
}
''')

seed("c06-comment-line", "C06",
     "a line comment ended by a carriage return and a line feed, before an error",
     "line comments count the line end themselves, and the line feed behind a carriage return is counted once more",
     [("lexer.go", '''		r, _, err := lex.readRune()
		if isNewline(r) || err != nil {
			return
''', '''		r, _, err := lex.bufReader.ReadRune()
		lex.checkRead(err)
		if isNewline(r) {
			lex.lineNo += 1
		}
		if isNewline(r) || err != nil {
			return
''')],
     LEX + '''
func TestDemo(t *testing.T) {
	for _, end := range []string{"\\n", "\\v", "\\f", "\\r", "\\r\\n"} {
		_, err := ParseString("A -- b" + end + "DEFINITIONS -- c -- " + end + "::= #")
		if err == nil || !strings.HasPrefix(err.Error(), "line 3:") {
			t.Errorf("%q: %v", end, err)
		}
	}
}
''')

seed("c04-caseless-words", "C04",
     "a word that starts with a letter that is neither upper-case nor lower-case, as ideographs or title-case digraphs",
     "words that start with a letter without case become references instead of identifiers",
     [("lexer.go", """			if unicode.IsUpper(r) {
""", """			if !unicode.IsLower(r) {
""")],
     LEX + """
func TestDemo(t *testing.T) {
	for _, word := range []string{"\u01c5x", "\u4e2d-1", "\u00aab"} {
		tokens, err := demoTokens(word)
		if err != nil || len(tokens) != 1 || tokens[0] != fmt.Sprint(VALUEIDENTIFIER, word) {
			t.Errorf("%q: %v, %v", word, tokens, err)
		}
	}
}
""")

seed("c04-wide-blank", "C04",
     "a text with the ideographic space U+3000 between two tokens",
     "a character that the notation does not allow between tokens is skipped silently",
     [("lexer.go", """	case 32:
		return true
""", """	case 32, 0x3000:
		return true
""")],
     LEX + """
func TestDemo(t *testing.T) {
	for _, text := range []string{"a\u3000b", "\u3000", "A ::=\u3000B"} {
		if tokens, err := demoTokens(text); err == nil {
			t.Errorf("%q is accepted: %v", text, tokens)
		}
	}
}
""")

seed("c04-buffered-peek", "C04",
     "a symbol of three characters on the border of two blocks of the reader, at offset 4096 of the text or where a slow reader pauses",
     "only what happens to be in the buffer is looked at: a symbol that goes on in the next block is split in two",
     [("lexer.go", """	pos := 0
	for n > 0 {
""", """	pos := 0
	for n > 0 && (pos == 0 || pos < lex.bufReader.Buffered()) {
""")],
     LEX + """
func TestDemo(t *testing.T) {
	for pad := 4090; pad < 4100; pad++ {
		demoSame(t, strings.Repeat(" ", pad)+"::= ... ::=  ...", "::= ... ::= ...")
	}
}
""")

seed("c05-slash-memory", "C05",
     "a block comment with a slash, and later an asterisk that does not follow the slash",
     "a slash is remembered until the next asterisk, which then opens a nested comment wherever it is",
     [("lexer.go", """			if lastIsOpeningSlash {
				lex.skipBlockComment()
			} else {
""", """			if lastIsOpeningSlash {
				lastIsOpeningSlash = false
				lex.skipBlockComment()
			} else {
"""), ("lexer.go", """		lastIsClosingStar = false
		lastIsOpeningSlash = false
	}
""", """		lastIsClosingStar = false
	}
""")],
     LEX + """
func TestDemo(t *testing.T) {
	demoSame(t, "A /* b / c * */ D", "A D")
	demoSame(t, "A /* b /* c */ * */ D", "A D")
	demoSame(t, "A /* and/or */ D", "A D")
}
""")

seed("c05-spaced-hyphens", "C05",
     "a line comment with two hyphens that have only blanks between them",
     "hyphens with blanks between them close a line comment, whose rest is then read as definitions",
     [("lexer.go", """			lastIsHyphen = true
		} else {
			lastIsHyphen = false
		}
""", """			lastIsHyphen = true
		} else if r != ' ' {
			lastIsHyphen = false
		}
""")],
     LEX + """
func TestDemo(t *testing.T) {
	demoSame(t, "A -- b - - c\\n D", "A D")
	demoSame(t, "A -- b -- c -- - -\\n D", "A c D")
}
""")

CLI = '''package asn1go

import (
	"bytes"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
)

const demoModule = "Demo DEFINITIONS ::= BEGIN A ::= INTEGER B ::= SEQUENCE { a A, b BOOLEAN } END\\n"

// demoBuild builds a command into a scratch directory that is removed by the test.
func demoBuild(t *testing.T, name string) (dir, binary string) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.RemoveAll(dir) })
	binary = filepath.Join(dir, name)
	if out, err := exec.Command("go", "build", "-o", binary, "./cmd/"+name).CombinedOutput(); err != nil {
		t.Fatalf("build: %v: %s", err, out)
	}
	return dir, binary
}

func demoRun(dir, stdin, binary string, args ...string) (stdout, stderr string, err error) {
	var o, e bytes.Buffer
	cmd := exec.Command(binary, args...)
	cmd.Dir, cmd.Stdin, cmd.Stdout, cmd.Stderr = dir, strings.NewReader(stdin), &o, &e
	err = cmd.Run()
	return o.String(), e.String(), err
}

var _ = filepath.Join
'''

seed("c23-three-args", "C23",
     "a command line with three file names",
     "with more names than expected the command ignores the output name, writes to standard output and ends with status 0",
     [("cmd/asn1go/main.go", "	if cmd.NArg() > 2 {\n", "	if cmd.NArg() > 3 {\n")],
     CLI + '''
func TestDemo(t *testing.T) {
	dir, binary := demoBuild(t, "asn1go")
	ioutil.WriteFile(filepath.Join(dir, "in"), []byte(demoModule), 0644)
	_, stderr, err := demoRun(dir, "", binary, "in", "out", "extra")
	if data, rerr := ioutil.ReadFile(filepath.Join(dir, "out")); err == nil && (rerr != nil || len(data) == 0) {
		t.Errorf("status is 0 and output file is not there: %v", rerr)
	} else if err != nil && stderr == "" {
		t.Errorf("fails without a word")
	}
}
''')

seed("c23-dash-input", "C23",
     "an input file whose name is a single hyphen",
     "a file named - is never read, standard input is read instead",
     [("cmd/asn1go/main.go", "	if len(inputName) != 0 {\n", "	if len(inputName) != 0 && inputName != \"-\" {\n")],
     CLI + '''
func TestDemo(t *testing.T) {
	dir, binary := demoBuild(t, "asn1go")
	ioutil.WriteFile(filepath.Join(dir, "-"), []byte("Demo DEFINITIONS ::= BEGIN FromFile ::= INTEGER END\\n"), 0644)
	stdout, stderr, err := demoRun(dir, demoModule, binary, "-")
	if err != nil || !strings.Contains(stdout, "FromFile") {
		t.Errorf("named file was not read: %v %s %s", err, stdout, stderr)
	}
}
''')

seed("c23-short-leftover", "C23",
     "an existing output file of less than 512 bytes that is longer than what is generated",
     "small files are not emptied before they are written, and keep the end of their old content",
     [("cmd/asn1go/main.go", "		if err := output.Truncate(0); err != nil {\n			failWithError(\"Failed to truncate file: %v\", err.Error())\n		}\n",
       "		if info, err := output.Stat(); err != nil || info.Size() >= 512 {\n			if err := output.Truncate(0); err != nil {\n				failWithError(\"Failed to truncate file: %v\", err.Error())\n			}\n		}\n")],
     CLI + '''
func TestDemo(t *testing.T) {
	dir, binary := demoBuild(t, "asn1go")
	out := filepath.Join(dir, "out")
	for _, n := range []int{0, 100, 500, 511, 512, 5000} {
		ioutil.WriteFile(out, []byte(strings.Repeat("x", n)), 0644)
		if _, stderr, err := demoRun(dir, "Demo DEFINITIONS ::= BEGIN A ::= BOOLEAN END\\n", binary, "/dev/stdin", "out"); err != nil {
			t.Fatalf("%v %s", err, stderr)
		}
		data, _ := ioutil.ReadFile(out)
		if strings.Contains(string(data), "xx") {
			t.Errorf("old content of %d bytes is left: %q", n, data)
		}
	}
}
''')

seed("c23-package-case", "C23",
     "a package name with capital letters given on the command line",
     "the package name is changed to lower case before it is passed on",
     [("cmd/asn1go/main.go", "		Package:     flags.packageName,\n", "		Package:     strings.ToLower(flags.packageName),\n"),
      ("cmd/asn1go/main.go", "	\"os\"\n)\n", "	\"os\"\n	\"strings\"\n)\n")],
     CLI + '''
func TestDemo(t *testing.T) {
	dir, binary := demoBuild(t, "asn1go")
	stdout, stderr, err := demoRun(dir, demoModule, binary, "-package", "myRPC")
	if err != nil || !strings.Contains(stdout, "package myRPC\\n") {
		t.Errorf("package name is not as given: %v %s %s", err, stdout, stderr)
	}
}
''')

seed("c24-long-lines", "C24",
     "a dump with more than sixteen bytes in a line",
     "what follows the sixteenth byte of a line is taken for the text column and left out",
     [("internal/utils/dump.go", "		for _, byteRepr := range elems[1:] {\n", "		for i, byteRepr := range elems[1:] {\n			if i >= 18 {\n				break\n			}\n")],
     '''package utils

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	line := "0000  "
	var want []byte
	for i := 0; i < 32; i++ {
		line += " 0" + string("0123456789abcdef"[i%16])
		want = append(want, byte(i%16))
	}
	if got := ParseWiresharkHex(line); !bytes.Equal(got, want) {
		t.Errorf("%x instead of %x", got, want)
	}
}
''', pkg="internal/utils/")

seed("c24-same-length", "C24",
     "an existing file that is exactly as long as the new encoding and has other content",
     "the file is taken to be up to date when its length is right, and is not written",
     [("marshal.go", "	err = ioutil.WriteFile(path, data, mode)\n", "	if info, missing := os.Stat(path); missing != nil || info.Size() != int64(len(data)) {\n		err = ioutil.WriteFile(path, data, mode)\n	}\n")],
     CLI + '''
func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "value")
	for _, n := range []int{1, 300, 2, 5, 301} {
		if err := MarshalToFile(n, path, 0600); err != nil {
			t.Fatal(err)
		}
		got, _ := ioutil.ReadFile(path)
		var want []byte
		if n < 128 {
			want = []byte{2, 1, byte(n)}
		} else {
			want = []byte{2, 2, byte(n >> 8), byte(n)}
		}
		if !bytes.Equal(got, want) {
			t.Errorf("%d: %x instead of %x", n, got, want)
		}
	}
}
''')

seed("c24-silent-program", "C24",
     "a program that fails without output",
     "the failure of a program is returned only if it said something",
     [("internal/utils/utils.go", "	out, err := cmd.CombinedOutput()\n	if err != nil {\n", "	out, err := cmd.CombinedOutput()\n	if err != nil && len(out) > 0 {\n")],
     '''package utils

import "testing"

func TestDemo(t *testing.T) {
	for _, script := range []string{"exit 3", "echo no; exit 3"} {
		if RunCommandForResult("sh", "-c", script) == nil {
			t.Errorf("failure of %q is hidden", script)
		}
	}
	if err := RunCommandForResult("/nonexistent/program"); err == nil {
		t.Errorf("program that does not exist was run")
	}
	if err := RunCommandForResult("sh", "-c", "exit 0"); err != nil {
		t.Error(err)
	}
}
''', pkg="internal/utils/")

seed("c24-saturated", "C24",
     "a dump with a word that is a number of more than eight bits",
     "numbers that do not fit into a byte are converted to ff",
     [("internal/utils/dump.go", "			if err != nil {\n				panic(err)\n			}\n			buf", "			if numErr, ok := err.(*strconv.NumError); ok && numErr.Err != strconv.ErrRange {\n				panic(err)\n			}\n			buf")],
     '''package utils

import "testing"

func TestDemo(t *testing.T) {
	for _, dump := range []string{"0000   6a 8l ad", "0000   6a 100", "0000   6a - ad", "0000   6a81"} {
		func() {
			defer func() {
				if recover() == nil {
					t.Errorf("%q is converted", dump)
				}
			}()
			ParseWiresharkHex(dump)
		}()
	}
}
''', pkg="internal/utils/")

seed("c30-closed-on-success", "C30",
     "parsing files that can not be parsed, many times in one process",
     "the file is closed only if it was parsed",
     [("parser.go", "	defer file.Close()\n	return ParseStream(file)\n", "	module, err := ParseStream(file)\n	if err != nil {\n		return nil, err\n	}\n	return module, file.Close()\n")],
     '''package asn1go

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime/debug"
	"testing"
)

func TestDemo(t *testing.T) {
	defer debug.SetGCPercent(debug.SetGCPercent(-1)) // finalizers would hide what is left open
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	for name, text := range map[string]string{"good": "A DEFINITIONS ::= BEGIN B ::= INTEGER END", "bad": "A DEFINITIONS ::= BEGIN B ::= END"} {
		path := filepath.Join(dir, name)
		if err := ioutil.WriteFile(path, []byte(text), 0600); err != nil {
			t.Fatal(err)
		}
		ParseFile(path)
		before := demoOpen(t, path)
		ParseFile(path)
		if after := demoOpen(t, path); before != 0 || after != 0 {
			t.Errorf("%s file is left open", name)
		}
	}
}

// demoOpen counts the descriptors of this process that refer to a file.
func demoOpen(t *testing.T, path string) (n int) {
	fds, err := ioutil.ReadDir("/proc/self/fd")
	if err != nil {
		t.Skip("descriptors can not be listed")
	}
	want, err := os.Stat(path)
	if err != nil {
		t.Fatal(err)
	}
	for _, fd := range fds {
		if got, err := os.Stat(filepath.Join("/proc/self/fd", fd.Name())); err == nil && os.SameFile(got, want) {
			n++
		}
	}
	return
}
''')

seed("c24-last-output", "C24",
     "a program that fails after more than four kilobytes of output",
     "only the end of long output is part of the error",
     [("internal/utils/utils.go", "	if err != nil {\n		return fmt.Errorf(runCommandError", "	if err != nil {\n		if len(out) > 4096 {\n			out = out[len(out)-4096:]\n		}\n		return fmt.Errorf(runCommandError"),
      ("internal/utils/utils.go", "err.Error(), string(out))", "err.Error(), string(out[:]))")],
     '''package utils

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, n := range []string{"10", "3000"} {
		err := RunCommandForResult("sh", "-c", "echo line $((40+2)); seq 1 "+n+"; exit 1")
		if err == nil || !strings.Contains(err.Error(), "line 42") {
			t.Errorf("output of a failed program is missing from the error")
		}
	}
}
''', pkg="internal/utils/")

seed("c23-program-argument", "C23",
     "a run without any arguments",
     "the command crashes when it is to read standard input and write standard output",
     [("cmd/asn1go/main.go", "	cmd := flag.NewFlagSet(args[0], flag.ExitOnError)\n", "	name := strings.TrimSuffix(filepath.Base(args[0]), filepath.Ext(args[1]))\n	cmd := flag.NewFlagSet(name, flag.ExitOnError)\n"),
      ("cmd/asn1go/main.go", '	"os"\n', '	"os"\n	"path/filepath"\n	"strings"\n')],
     CLI + '''
func TestDemo(t *testing.T) {
	dir, bin := demoBuild(t, "asn1go")
	defer os.RemoveAll(dir)
	for _, args := range [][]string{{}, {"-package", "demo"}} {
		c := exec.Command(bin, args...)
		c.Stdin = strings.NewReader(demoModule)
		out, err := c.Output()
		if err != nil || !bytes.Contains(out, []byte("type A ")) {
			t.Errorf("arguments %v: %v, output %q", args, err, out)
		}
	}
}
''')

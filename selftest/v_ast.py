A, P = "ast.go", "parser.go"
PROPS = "C01 C03 C07 C08 C09 C10 C11 C13 C14 C19 C21 C23 C25 C28 C02"
GET = """	for _, assignment := range l {
		if assignment.Reference().Name() == name {
			return assignment
		}
	}
	return nil
}
"""
GV = """	a := l.Get(name)
	if a == nil {
		return nil
	}
	switch r := a.(type) {
	case ValueAssignment:
		return &r
	default:
		return nil
	}
"""
GT = GV.replace("ValueAssignment", "TypeAssignment")
PS = """	lex := &MyLexer{}
	lex.bufReader = bufio.NewReader(reader)
	yyParse(lex)
	if lex.err != nil {
		return nil, lex.err
	}
	return lex.result, nil
"""
PF = """	file, err := os.Open(name)
	if err != nil {
		return nil, err
	}
	defer file.Close()
	return ParseStream(file)
"""
RL = '''	value, _ := strconv.ParseFloat(integer+"."+fraction+"e"+strconv.Itoa(exponent.IntValue()), 64)
	return Real(value)
'''
QUIET = [
 ("get-index", [(A, GET, """	for i := 0; i < len(l); i++ {
		if l[i].Reference().Name() == name {
			return l[i]
		}
	}
	return nil
}
""")]),
 ("get-recursive", [(A, GET, """	if len(l) == 0 {
		return nil
	}
	if first := l[0]; first.Reference().Name() == name {
		return first
	}
	return l[1:].Get(name)
}
""")]),
 ("get-continue", [(A, GET, """	for _, assignment := range l {
		if assignment.Reference().Name() != name {
			continue
		}
		return assignment
	}
	return nil
}
""")]),
 ("get-found", [(A, GET, """	var found Assignment
	for _, assignment := range l {
		if assignment.Reference().Name() == name {
			found = assignment
			break
		}
	}
	return found
}
""")]),
 ("get-helper", [(A, GET, """	if i := l.index(name); i >= 0 {
		return l[i]
	}
	return nil
}

// index is the position of the assignment called name, or -1.
func (l AssignmentList) index(name string) int {
	for i, assignment := range l {
		if assignment.Reference().Name() == name {
			return i
		}
	}
	return -1
}
""")]),
 ("get-pred", [(A, GET, """	return l.find(func(a Assignment) bool { return a.Reference().Name() == name })
}

func (l AssignmentList) find(match func(Assignment) bool) Assignment {
	for _, a := range l {
		if match(a) {
			return a
		}
	}
	return nil
}
""")]),
 ("get-loop-cond", [(A, GET, """	i := 0
	for i < len(l) && l[i].Reference().Name() != name {
		i++
	}
	if i == len(l) {
		return nil
	}
	return l[i]
}
""")]),
 ("get-backwards", [(A, GET, """	var result Assignment
	for i := len(l) - 1; i >= 0; i-- {
		if l[i].Reference().Name() == name {
			result = l[i]
		}
	}
	return result
}
""")]),
 ("getvalue-ok", [(A, GV, """	if r, ok := l.Get(name).(ValueAssignment); ok {
		return &r
	}
	return nil
""")]),
 ("getvalue-not-ok", [(A, GV, """	r, ok := l.Get(name).(ValueAssignment)
	if !ok {
		return nil
	}
	return &r
""")]),
 ("getvalue-noswitchdefault", [(A, GV, """	switch r := l.Get(name).(type) {
	case ValueAssignment:
		return &r
	}
	return nil
""")]),
 ("getvalue-copy", [(A, GV, """	a := l.Get(name)
	value, isValue := a.(ValueAssignment)
	if a == nil || !isValue {
		return nil
	}
	result := value
	return &result
""")]),
 ("gettype-cases", [(A, GT, """	switch r := l.Get(name).(type) {
	case nil:
		return nil
	case ValueAssignment:
		return nil
	case TypeAssignment:
		return &r
	default:
		return nil
	}
""")]),
 ("gettype-new", [(A, GT, """	found := new(TypeAssignment)
	var ok bool
	if *found, ok = l.Get(name).(TypeAssignment); !ok {
		return nil
	}
	return found
""")]),
 ("minus-direct", [(A, "Number(-int(x))", "-x"), (A, "Real(-float64(x))", "-x")]),
 ("minus-sub", [(A, "Number(-int(x))", "0 - x"), (A, "Real(-float64(x))", "-1 * x")]),
 ("value-ptr-receivers", [(A, "func (x Number) IntValue() int {\n	return int(x)", "func (x Number) IntValue() int {\n	value := int(x)\n	return value")]),
 ("unspecified", [(A, "	return e.Value == nil\n", "	if e.Value != nil {\n		return false\n	}\n	return true\n")]),
 ("single-element", [(A, """	return Constraint{ConstraintSpec: SubtypeConstraint{
		Unions{Intersections{IntersectionElements{Elements: elem}}},
	}}
""", """	intersection := Intersections{IntersectionElements{Elements: elem}}
	unions := Unions{intersection}
	spec := SubtypeConstraint{unions}
	return Constraint{ConstraintSpec: spec}
""")]),
 ("single-element-append", [(A, """	return Constraint{ConstraintSpec: SubtypeConstraint{
		Unions{Intersections{IntersectionElements{Elements: elem}}},
	}}
""", """	var result Constraint
	var intersection Intersections
	intersection = append(intersection, IntersectionElements{Elements: elem})
	result.ConstraintSpec = SubtypeConstraint{Unions{intersection}}
	return result
""")]),
 ("name-strings", [(A, "func (r TypeReference) Name() string {\n	return string(r)", "func (r TypeReference) Name() string {\n	name := string(r)\n	return name")]),
 ("stream-literal", [(P, PS, """	lex := &MyLexer{bufReader: bufio.NewReader(reader)}
	yyParse(lex)
	if lex.err == nil {
		return lex.result, nil
	}
	return nil, lex.err
""")]),
 ("stream-var", [(P, PS, """	var lex MyLexer
	lex.bufReader = bufio.NewReader(reader)
	_ = yyParse(&lex)
	if err := lex.err; err != nil {
		return nil, err
	}
	return lex.result, nil
""")]),
 ("stream-newparser", [(P, PS, """	lex := newLexer(reader)
	yyNewParser().Parse(lex)
	return lex.outcome()
}

func newLexer(reader io.Reader) *MyLexer {
	return &MyLexer{bufReader: bufio.NewReader(reader)}
}

func (lex *MyLexer) outcome() (*ModuleDefinition, error) {
	if lex.err != nil {
		return nil, lex.err
	}
	return lex.result, nil
""")]),
 ("stream-code", [(P, PS, """	lex := &MyLexer{}
	lex.bufReader = bufio.NewReader(reader)
	if yyParse(lex) != 0 || lex.err != nil {
		return nil, lex.err
	}
	return lex.result, nil
""")]),
 ("stream-size", [(P, "bufio.NewReader(reader)", "bufio.NewReaderSize(reader, 4096)")]),
 ("stream-named", [(P, "func ParseStream(reader io.Reader) (*ModuleDefinition, error) {\n" + PS, """func ParseStream(reader io.Reader) (module *ModuleDefinition, err error) {
	lex := &MyLexer{}
	lex.bufReader = bufio.NewReader(reader)
	yyParse(lex)
	if err = lex.err; err == nil {
		module = lex.result
	}
	return module, err
""")]),
 ("stream-defer", [(P, "func ParseStream(reader io.Reader) (*ModuleDefinition, error) {\n" + PS, """func ParseStream(reader io.Reader) (module *ModuleDefinition, err error) {
	lex := &MyLexer{}
	defer func() {
		module, err = lex.result, lex.err
		if err != nil {
			module = nil
		}
	}()
	lex.bufReader = bufio.NewReader(reader)
	yyParse(lex)
	return
""")]),
 ("string-buffer", [(P, "strings.NewReader(str)", "bytes.NewBufferString(str)"), (P, '	"bufio"\n	"io"\n	"os"\n	"strconv"\n	"strings"\n', '	"bufio"\n	"bytes"\n	"io"\n	"os"\n	"strconv"\n')]),
 ("string-bytes", [(P, "strings.NewReader(str)", "bytes.NewReader([]byte(str))"), (P, '	"bufio"\n	"io"\n	"os"\n	"strconv"\n	"strings"\n', '	"bufio"\n	"bytes"\n	"io"\n	"os"\n	"strconv"\n')]),
 ("string-var", [(P, "	return ParseStream(strings.NewReader(str))\n", "	reader := strings.NewReader(str)\n	module, err := ParseStream(reader)\n	return module, err\n")]),
 ("string-builder", [(P, "	return ParseStream(strings.NewReader(str))\n", "	module, err := ParseStream(strings.NewReader(str))\n	if err != nil {\n		return nil, err\n	}\n	return module, nil\n")]),
 ("file-closure", [(P, PF, """	file, err := os.Open(name)
	if err != nil {
		return nil, err
	}
	defer func() { _ = file.Close() }()
	return ParseStream(file)
""")]),
 ("file-close-after", [(P, PF, """	file, err := os.Open(name)
	if err != nil {
		return nil, err
	}
	module, err := ParseStream(file)
	file.Close()
	return module, err
""")]),
 ("file-buffered", [(P, "	return ParseStream(file)\n", "	return ParseStream(bufio.NewReader(file))\n")]),
 ("file-openfile", [(P, "os.Open(name)", "os.OpenFile(name, os.O_RDONLY, 0)")]),
 ("file-readfile", [(P, PF, """	content, err := os.ReadFile(name)
	if err != nil {
		return nil, err
	}
	return ParseString(string(content))
""")]),
 ("file-wrapped", [(P, PF, """	file, err := os.Open(name)
	if err != nil {
		return nil, fmt.Errorf("can not open %s: %w", name, err)
	}
	defer file.Close()
	return ParseStream(file)
"""), (P, '	"bufio"\n', '	"bufio"\n	"fmt"\n')]),
 ("real-sprintf", [(P, RL, '''	text := fmt.Sprintf("%s.%se%d", integer, fraction, exponent.IntValue())
	value, _ := strconv.ParseFloat(text, 64)
	return Real(value)
'''), (P, '	"bufio"\n', '	"bufio"\n	"fmt"\n')]),
 ("real-join", [(P, RL, '''	mantissa := strings.Join([]string{integer, fraction}, ".")
	value, _ := strconv.ParseFloat(mantissa+"e"+strconv.Itoa(int(exponent)), 64)
	return Real(value)
''')]),
 ("real-builder", [(P, RL, '''	var text strings.Builder
	text.WriteString(integer)
	text.WriteByte('.')
	text.WriteString(fraction)
	text.WriteByte('e')
	text.WriteString(strconv.FormatInt(int64(exponent), 10))
	value, _ := strconv.ParseFloat(text.String(), 64)
	return Real(value)
''')]),
 ("real-helper", [(P, RL, '''	return toReal(integer + "." + fraction, exponent)
}

// toReal is mantissa times ten to the exponent.
func toReal(mantissa string, exponent Number) Real {
	value, err := strconv.ParseFloat(mantissa+"e"+strconv.Itoa(exponent.IntValue()), 64)
	_ = err // the value is infinite then
	return Real(value)
''')]),
 ("real-err", [(P, RL, '''	value, err := strconv.ParseFloat(integer+"."+fraction+"E"+strconv.Itoa(exponent.IntValue()), 64)
	if err != nil {
		return Real(value)
	}
	return Real(value)
''')]),
]
LOUD = [
 ("get-last", [(A, GET, """	var result Assignment
	for _, assignment := range l {
		if assignment.Reference().Name() == name {
			result = assignment
		}
	}
	return result
}
""")], "C25"),
 ("get-fold", [(A, "assignment.Reference().Name() == name", "strings.EqualFold(assignment.Reference().Name(), name)"), (A, "package asn1go\n", 'package asn1go\n\nimport "strings"\n')], "C25"),
 ("get-skip-last", [(A, GET, """	for i := 0; i < len(l)-1; i++ {
		if l[i].Reference().Name() == name {
			return l[i]
		}
	}
	if len(l) > 0 && l[len(l)-1].Reference().Name() == name {
		return l[0]
	}
	return nil
}
""")], "C25"),
 ("get-binary", [(A, GET, """	for i := 0; i < len(l); i += 1 + i/1000 {
		if l[i].Reference().Name() == name {
			return l[i]
		}
	}
	return nil
}
""")], "C25"),
 ("get-backwards-break", [(A, GET, """	for i := len(l) - 1; i >= 0; i-- {
		if l[i].Reference().Name() == name {
			return l[i]
		}
	}
	return nil
}
""")], "C25"),
 ("getvalue-any", [(A, GV, """	for _, a := range l {
		if r, ok := a.(ValueAssignment); ok && r.ValueReference.Name() == name {
			return &r
		}
	}
	return nil
""")], "C25"),
 ("getvalue-nontype", [(A, GV, """	a := l.Get(name)
	if a == nil {
		return nil
	}
	switch r := a.(type) {
	case ValueAssignment:
		if r.Type == nil {
			return nil
		}
		return &r
	default:
		return nil
	}
""")], "C25"),
 ("gettype-panic", [(A, GT, """	r := l.Get(name).(TypeAssignment)
	return &r
""")], "C25 C03"),
 ("reference-other", [(A, "	return v.ValueReference\n", "	return TypeReference(v.ValueReference)\n")], "C25"),
 ("reference-cut", [(A, "	return v.TypeReference\n", '	return TypeReference("T" + string(v.TypeReference))\n')], "C25"),
 ("number-type", [(A, "func (Number) Type() Type {\n	return IntegerType{}", "func (Number) Type() Type {\n	return RealType{}")], "C25"),
 ("real-type", [(A, "	return RealType{}\n", "	if x == Real(int(x)) {\n		return IntegerType{}\n	}\n	return RealType{}\n")], "C25"),
 ("bool-type", [(A, "	return BooleanType{}\n", "	return IntegerType{}\n")], "C25"),
 ("oid-type", [(A, "	return ObjectIdentifierType{}\n", "	return nil\n")], "C25"),
 ("named-type", [(A, "	return x.valueType\n", "	return IntegerType{}\n")], "C25"),
 ("minus-32", [(A, "Number(-int(x))", "Number(-int32(x))")], "C25"),
 ("minus-complement", [(A, "Number(-int(x))", "Number(^int(x))")], "C25"),
 ("minus-abs", [(A, "	return Number(-int(x))\n", "	if x < 0 {\n		return x\n	}\n	return Number(-int(x))\n")], "C25"),
 ("minus-real-32", [(A, "Real(-float64(x))", "Real(-float32(x))")], "C25"),
 ("minus-real-zero", [(A, "Real(-float64(x))", "Real(0 - float64(x))")], "C25"),
 ("int-16", [(A, "	return int(x)\n", "	return int(int16(x))\n")], "C25"),
 ("unspecified-open", [(A, "	return e.Value == nil\n", "	return e.Value == nil && !e.IsOpen\n")], "C25"),
 ("stream-result", [(P, "	if lex.err != nil {\n		return nil, lex.err", "	if lex.err != nil {\n		return lex.result, lex.err")], "C01"),
 ("stream-code-only", [(P, "	yyParse(lex)\n	if lex.err != nil {", "	if yyParse(lex) != 0 {")], "C01"),
 ("stream-limit", [(P, "bufio.NewReader(reader)", "bufio.NewReader(io.LimitReader(reader, 1<<24))")], "C01"),
 ("stream-bom", [(P, "	yyParse(lex)\n", "	if b, _ := lex.bufReader.Peek(3); string(b) == \"\\xef\\xbb\\xbf\" {\n		lex.bufReader.Discard(3)\n	}\n	yyParse(lex)\n")], "C01"),
 ("string-trim", [(P, "strings.NewReader(str)", "strings.NewReader(strings.TrimSpace(str))")], "C01"),
 ("string-nul", [(P, "	return ParseStream(strings.NewReader(str))\n", "	if str == \"\" {\n		return &ModuleDefinition{}, nil\n	}\n	return ParseStream(strings.NewReader(str))\n")], "C01"),
 ("string-replace", [(P, "strings.NewReader(str)", 'strings.NewReader(strings.Replace(str, "\\r\\n", "\\n", -1))')], "C01"),
 ("file-swallow", [(P, "	if err != nil {\n		return nil, err\n", "	if os.IsNotExist(err) {\n		return nil, nil\n	}\n	if err != nil {\n		return nil, err\n")], "C01"),
 ("file-twice", [(P, "	return ParseStream(file)\n", "	module, err := ParseStream(file)\n	if err != nil {\n		return ParseStream(file)\n	}\n	return module, nil\n")], "C01"),
 ("file-closed", [(P, "	defer file.Close()\n", "	file.Close()\n")], "C01"),
 ("file-readall", [(P, "	return ParseStream(file)\n", "	text, _ := io.ReadAll(file)\n	return ParseString(string(text))\n")], "C01"),
 ("verbose", [(P, "	yyErrorVerbose = true\n", "	yyErrorVerbose = os.Getenv(\"ASN1_QUIET\") == \"\"\n")], "C11"),
 ("real-32", [(P, "exponent.IntValue()), 64)", "exponent.IntValue()), 32)")], "C28"),
 ("real-range", [(P, RL, """	value, err := strconv.ParseFloat(integer+"."+fraction+"e"+strconv.Itoa(exponent.IntValue()), 64)
	if err != nil {
		return 0
	}
	return Real(value)
""")], "C28"),
 ("real-digits", [(P, "func parseRealLiteral(integer string, fraction string, exponent Number) Real {\n", "func parseRealLiteral(integer string, fraction string, exponent Number) Real {\n	if len(fraction) > 17 {\n		fraction = fraction[:17]\n	}\n")], "C28"),
 ("real-trim", [(P, "integer+\".\"+fraction+", "integer+\".\"+strings.TrimLeft(fraction, \"0\")+")], "C28"),
 ("real-exp-int8", [(P, "strconv.Itoa(exponent.IntValue()), 64)", "strconv.Itoa(int(int8(exponent))), 64)")], "C28"),
]

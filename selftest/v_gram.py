Y, G, P, A = "asn1.y", "y.go", "parser.go", "ast.go"
def y(*xs): return [(Y, xs[i], xs[i+1]) for i in range(0, len(xs), 2)]
def g(*xs): return [(G, xs[i], xs[i+1]) for i in range(0, len(xs), 2)]

QUIET = [
 ("comment", g("func yyNewParser() yyParser {", "// parser\nfunc yyNewParser() yyParser {")),
 ("dead-parse", g("	Nerrs := 0   /* number of errors */", "	_ = len(yyS)\n	Nerrs := 0   /* number of errors */")),
 ("dead-lex1", g("	token = 0\n	char = lex.Lex(lval)", "	token = 0\n	_ = token\n	if false {\n		token = 7\n	}\n	char = lex.Lex(lval)")),
 ("yyparse-steps", g("	return yyNewParser().Parse(yylex)", "	p := yyNewParser()\n	return p.Parse(yylex)")),
 ("action-temp", g("			yyVAL.DefinitiveObjIdComponent = DefinitiveObjIdComponent{Name: yyDollar[1].name}", "			component := DefinitiveObjIdComponent{}\n			component.Name = yyDollar[1].name\n			yyVAL.DefinitiveObjIdComponent = component")),
 ("action-helper", y("ModuleBody : Exports Imports AssignmentList  { $$ = ModuleBody{Imports: $2, AssignmentList: $3} }", "ModuleBody : Exports Imports AssignmentList  { $$ = newBody($2, $3) }")
   + [(P, "// ParseFile parses", "func newBody(imports []SymbolsFromModule, assignments AssignmentList) (body ModuleBody) {\n	body.AssignmentList = assignments\n	body.Imports = imports\n	return body\n}\n\n// ParseFile parses")]),
 ("append-loop", y("{ $$ = append(append(make([]DefinitiveObjIdComponent, 0), $1), $2...) }", "{ $$ = []DefinitiveObjIdComponent{$1}\n for _, c := range $2 { $$ = append($$, c) } }")),
 ("helper-nonterminal", y("TagDefault : EXPLICIT TAGS   { $$ = TAGS_EXPLICIT }", "tags: TAGS;\n\nTagDefault : EXPLICIT tags   { $$ = TAGS_EXPLICIT }")),
 ("renamed-nonterminal", y("%type <NamedBitList> NamedBitList", "%type <NamedBitList> BitNames", "OPEN_CURLY NamedBitList CLOSE_CURLY", "OPEN_CURLY BitNames CLOSE_CURLY", "NamedBitList : NamedBit  {", "BitNames : NamedBit  {", "| NamedBitList COMMA NamedBit", "| BitNames COMMA NamedBit")),
 ("real-sprintf", [(P, 'strconv.ParseFloat(integer+"."+fraction+"e"+strconv.Itoa(exponent.IntValue()), 64)', 'strconv.ParseFloat(strings.Join([]string{integer, ".", fraction, "e", strconv.Itoa(int(exponent))}, ""), 64)')]),
 ("renamed-result", [("lexer.go", "	result        *ModuleDefinition", "	module        *ModuleDefinition"), (P, "lex.result", "lex.module"), (Y, "(*MyLexer).result", "(*MyLexer).module")]),
 ("consts-renumbered", [(A, "	CLASS_CONTEXT_SPECIFIC = iota // when not specified\n	CLASS_UNIVERSAL\n", "	CLASS_CONTEXT_SPECIFIC = iota // when not specified\n	_\n	CLASS_UNIVERSAL\n")]),
 ("union-order", y("    name         string\n    numberRepr   string\n", "    numberRepr   string\n    name string\n")),
]
LOUD = [
 ("imports-dropped", y("{ $$ = ModuleBody{Imports: $2, AssignmentList: $3} }", "{ $$ = ModuleBody{AssignmentList: $3} }"), "C07"),
 ("imports-dropped-go", g("ModuleBody{Imports: yyDollar[2].Imports, AssignmentList: yyDollar[3].AssignmentList}", "ModuleBody{AssignmentList: yyDollar[3].AssignmentList}"), "C07"),
 ("imports-dropped-go10", g("ModuleBody{Imports: yyDollar[2].Imports, AssignmentList: yyDollar[3].AssignmentList}", "ModuleBody{AssignmentList: yyDollar[3].AssignmentList}"), "C10"),
 ("first-wins", y("| SymbolsFromModuleList SymbolsFromModule  { $$ = append($1, $2) }", "| SymbolsFromModuleList SymbolsFromModule  { if len($1) > 7 { $$ = $1 } else { $$ = append($1, $2) } }"), "C07"),
 ("recovery", g("			Errflag = 3\n", "			Errflag = 2\n"), "C10"),
 ("stack-growth", g("		nyys := make([]yySymType, len(yyS)*2)\n		copy(nyys, yyS)\n		yyS = nyys\n	}\n	yyS[yyp] = yyVAL", "		nyys := make([]yySymType, len(yyS)*2)\n		copy(nyys, yyS[:yyp-1])\n		yyS = nyys\n	}\n	yyS[yyp] = yyVAL"), "C10"),
 ("eof-char", g("	if char <= 0 {", "	if char < 0 {"), "C10"),
 ("conflict-order", y("SymbolsExported : SymbolList\n                | /*empty*/", "SymbolsExported : /*empty*/\n                | SymbolList", "typereference: TYPEORMODULEREFERENCE  { $$ = TypeReference($1) }\n;\n\nmodulereference: TYPEORMODULEREFERENCE;", "modulereference: TYPEORMODULEREFERENCE;\n\ntypereference: TYPEORMODULEREFERENCE  { $$ = TypeReference($1) }\n;"), "C07"),
 ("extra-production", y("BooleanValue : TRUE  {", "BooleanValue : TRUE TRUE { $$ = Boolean(true) }\n | TRUE  {"), "C09"),
 ("shared-empty", y("| /*empty*/  { $$ = make([]SymbolsFromModule, 0) }\n;\n\nSymbolsImported", "| /*empty*/  { $$ = noImports }\n;\n\nSymbolsImported") + [(P, "// ParseFile parses", "var noImports = make([]SymbolsFromModule, 0, 4)\n\n// ParseFile parses")], "C11"),
 ("count-global", [(P, "	lex := &MyLexer{}", "	parses++\n	lex := &MyLexer{}"), (P, "// ParseFile parses", "var parses int\n\n// ParseFile parses")], "C11"),
 ("cached-lexer", [(P, "	lex := &MyLexer{}", "	lex := shared\n	*lex = MyLexer{}"), (P, "// ParseFile parses", "var shared = &MyLexer{}\n\n// ParseFile parses")], "C11"),
 ("last-result", [(P, "	return lex.result, nil", "	if lex.result == nil {\n		return lastResult, nil\n	}\n	lastResult = lex.result\n	return lastResult, nil"), (P, "// ParseFile parses", "var lastResult *ModuleDefinition\n\n// ParseFile parses")], "C11"),
 ("stack-address", y("| OPEN_CURLY DefinedValue ObjIdComponentsList CLOSE_CURLY  { cpy := $2; $$ = append(ObjectIdentifierValue{ObjectIdElement{Reference: &cpy}}, $3...) }", "| OPEN_CURLY DefinedValue ObjIdComponentsList CLOSE_CURLY  { $$ = append(ObjectIdentifierValue{ObjectIdElement{Reference: &$2}}, $3...) }"), "C11"),
 ("float32", [(P, 'strconv.Itoa(exponent.IntValue()), 64)', 'strconv.Itoa(exponent.IntValue()), 32)')], "C28"),
 ("pow", [(P, 'value, _ := strconv.ParseFloat(integer+"."+fraction+"e"+strconv.Itoa(exponent.IntValue()), 64)\n	return Real(value)', 'value, _ := strconv.ParseFloat(integer+"."+fraction, 64)\n	return Real(value * math.Pow(10, float64(exponent)))'), (P, '	"io"\n', '	"io"\n	"math"\n')], "C28"),
 ("exponent-sign", y("| MINUS NUMBER  { $$ = Number(-int($2)) }", "| MINUS NUMBER  { if $2 > 400 { $$ = 0 } else { $$ = Number(-int($2)) } }"), "C28"),
 ("min-sign", [(A, "	return Number(-int(x))", "	if x > 1<<31 {\n		return x\n	}\n	return Number(-int(x))")], "C09"),
]

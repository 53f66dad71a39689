#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Edit here, not there.
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))

L, PA, Y, YG, G, A = "lexer.go", "parser.go", "asn1.y", "y.go", "codegen.go", "ast.go"

p("C01", "Parsing yields a module or an error, and no error is lost",
  "For every input, parsing a string, a stream or a file returns either a module and no error, or an error and no module. "
  "Every lexical error, every syntax error and every failure to open or to read the input, wherever it happens, makes parsing return an error, and the error returned is the first one met. "
  "Parsing a string or a file gives what parsing a stream of the same text gives.",
  ["inputs", "fault_sequences"], "all input texts and all readers, including readers that fail at any point",
  "The tests parse a few dozen well-formed modules; almost none feeds a malformed text and none a failing reader.",
  [PA, L, YG],
  [("error is recorded by the lexer and checked after the parser returns", "parser.go ParseStream, lexer.go Error"),
   ("the module is stored by the action of the start production only", "asn1.y ModuleDefinition")],
  [("err", "first error of the run", "lexer.go MyLexer"), ("result", "module built by the start production", "lexer.go MyLexer")],
  ["ParseString, ParseStream, ParseFile results"])

p("C02", "Parsing and code generation terminate",
  "Parsing terminates for every input, also when the reader starts failing at any point, and code generation terminates for every module, also when types are defined in terms of each other or of themselves.",
  ["inputs", "fault_sequences"], "all input texts, readers and modules",
  "A test that passes shows termination for its own input only; circular definitions, unterminated items and failing readers are not sampled.",
  [L, YG, G],
  [("each lexer loop consumes input or stops at its end", "lexer.go"), ("reference chains are followed through each name once", "codegen.go unwrapToLeafType"),
   ("recursion of the generator follows the structure of the type", "codegen.go generateTypeBody")],
  observe=["ParseStream and Generate return"])

p("C03", "No input makes parsing or code generation panic",
  "No text, and no failure of the reader it comes from, makes parsing panic, and no module obtained by parsing makes code generation panic (exhaustion of the stack by the nesting depth of the text aside).",
  ["inputs", "fault_sequences"], "all input texts, readers, and all modules parsing can return",
  "Tests cover the constructs of a few RFC modules; a panic needs an unusual construct or a read failure at a particular place.",
  [L, PA, YG, G, A],
  [("type assertions on dynamic values are checked, indexes are in range, pointers are not nil", "all non-test files"),
   ("a rune is put back only right after it was read", "lexer.go unreadRune")],
  observe=["ParseStream and Generate return normally"])

p("C04", "Every lexical item becomes the token it denotes",
  "Outside comments, each symbol, each multi-character symbol (by longest match), each reserved word and each reference, identifier or number of the text is delivered as the token it denotes, with its own spelling or value, consuming exactly its characters; the six white-space characters only separate tokens. "
  "Words start with a letter and run through letters, digits and hyphens, upper-case ones being reserved words or references and the others identifiers; a word that ends with a hyphen or has two in a row, a number that does not fit an integer, and any other character is an error. "
  "An exponent marker is recognised only directly after a number.",
  ["inputs"], "all sequences of characters",
  "The lexer tests sample some tokens of each kind; they do not cover the table of reserved words, lookahead at each boundary, or end of input after each prefix.",
  [L, Y],
  [("decision on the first character and its lookahead", "lexer.go Lex"), ("single symbols", "lexer.go consumeSingleSymbol"),
   ("reserved words", "lexer.go RESERVED_WORDS"), ("words and numbers", "lexer.go consumeWord, consumeNumber")],
  [("lastWasNumber", "previous token was a number that ended right before this character", "lexer.go MyLexer")],
  ["tokens returned by Lex"])

p("C05", "Comments end exactly where ASN.1 ends them and hide nothing else",
  "A line comment starts with two hyphens and ends at the next two hyphens or at the end of the line, whichever comes first; a block comment starts with slash-asterisk, nests, and ends at its own matching asterisk-slash. "
  "The characters that open a comment never take part in closing it, the text between yields no token and the text after it is read normally; a block comment that is not closed before the end of input is an error.",
  ["inputs"], "all texts containing comments, of any nesting and any content",
  "The tests have a handful of comments; the closing rule is a property of every sequence of hyphens, slashes, asterisks and line ends.",
  [L], [("line comments", "lexer.go skipLineComment"), ("block comments", "lexer.go skipBlockComment"), ("recognition of the opening", "lexer.go Lex")],
  observe=["tokens returned by Lex"])

p("C06", "Errors name the line they were met on",
  "The line number in a parse error is one plus the number of line ends in the text consumed up to the point where the error was met. "
  "Line feed, vertical tab, form feed and carriage return each end a line, a carriage return followed by a line feed ends one line, and looking ahead or putting a character back does not change the count.",
  ["inputs"], "all texts with an error, with any mix of line ends before it",
  "No test checks a line number; every way of consuming a character has to keep the count.",
  [L], [("counting on read and on put-back", "lexer.go readRune, unreadRune")],
  [("lineNo", "number of line ends consumed", "lexer.go MyLexer"), ("lastIsCR", "last consumed character was a carriage return", "lexer.go MyLexer")],
  ["text of errors returned by ParseStream"])

p("C07", "The parsed module has what the text says: module, imports, assignments",
  "In the module returned by parsing, the name and identifier of the module, its tagging and extensibility defaults, its imports and its assignments are exactly those written, each in its place and in the order of the text. "
  "Nothing that was written is dropped, duplicated, reordered or attributed to another construct.",
  ["inputs"], "all texts the grammar accepts",
  "The tests compare the result of a few productions in a few combinations; every production builds its part for every text.",
  [Y, YG, A], [("semantic actions of the module level productions", "asn1.y ModuleDefinition .. ValueAssignment")],
  observe=["ModuleDefinition returned by ParseStream"])

p("C08", "The parsed module has what the text says: types, components and tags",
  "In the module returned by parsing, every type is represented by the node of its own kind with everything the text gives it: components, alternatives and enumeration items in order, optionality and default of each component, extension additions, named numbers and bits, tag class, number and mode, element types and referenced names. "
  "Nothing that was written is dropped, duplicated, reordered or attributed to another construct, except for the parts the library documents as ignored (exceptions and version-bracket groups).",
  ["inputs"], "all texts the grammar accepts",
  "The tests compare the result of a few productions in a few combinations; every production builds its part for every text.",
  [Y, YG, A], [("semantic actions of the type productions", "asn1.y Type .. UsefulType")],
  observe=["ModuleDefinition returned by ParseStream"])

p("C09", "The parsed module has what the text says: values and constraints",
  "In the module returned by parsing, every value (integers and reals with their sign, fraction digits and exponent, booleans, object identifiers, references to values) and every constraint (single values, ranges with their bounds and openness, sizes, type constraints, unions, intersections and exclusions, additional sets) is represented by the node of its own kind, with the parts the text gives it and in its order. "
  "The content of inner type constraints is documented as ignored.",
  ["inputs"], "all texts the grammar accepts",
  "The tests compare the result of a few productions in a few combinations; every production builds its part for every text.",
  [Y, YG, PA, A], [("semantic actions of the value and constraint productions", "asn1.y Value .. ExceptionSpec"), ("real literals are built from their digits", "parser.go")],
  observe=["ModuleDefinition returned by ParseStream"])

p("C10", "The shipped parser implements the grammar",
  "The shipped parser accepts exactly the texts whose tokens form a module under the published grammar file, with the conflicts of the grammar resolved as the parser generator resolves them, and runs for each construct the action the grammar file gives it.",
  ["inputs"], "all sequences of tokens",
  "Parser tables are thousands of numbers; the tests exercise a small part of the states.",
  [Y, YG], [("generated tables and generated driver", "y.go"), ("grammar", "asn1.y")],
  observe=["acceptance by ParseStream"])

p("C11", "Each parse result is independent of everything parsed before or after it",
  "A module returned by parsing is not changed by later or concurrent calls, shares no storage with the parser's working memory, and none of its parts aliases another part. "
  "Parsing depends on nothing but its input, so any number of parses can run concurrently with the results they give alone.",
  ["inputs", "histories", "schedules"], "all texts, and all sequences and interleavings of calls",
  "Tests run one parse at a time and look at the result at once; sharing shows only later, or under concurrency.",
  [Y, YG, L, PA], [("actions copy what they point to", "asn1.y"), ("state is per call", "parser.go ParseStream, lexer.go MyLexer")],
  observe=["ModuleDefinition returned by ParseStream"])

p("C12", "Code generation is a pure function of module and parameters",
  "Generating code twice from the same module with the same parameters writes the same bytes, also concurrently and whatever was generated before, and leaves the module as it was. "
  "The output depends on no iteration order, clock, environment or earlier call.",
  ["inputs", "histories", "schedules"], "all modules, parameters, and all sequences and interleavings of calls",
  "Tests generate once per module and compare text; order and history dependence need repetition with other inputs.",
  [G, A], [("generation state is per call", "codegen.go moduleContext"), ("built-in types table is never written", "ast.go USEFUL_TYPES")],
  observe=["bytes written by Generate, the module passed to it"])

p("C13", "Every ASN.1 type is generated as the Go type that represents it",
  "Wherever a type occurs, BOOLEAN is generated as bool, INTEGER as int64 or pointer to big.Int as configured, REAL as float64, character strings as string, OCTET STRING as byte slice, BIT STRING as asn1.BitString, ENUMERATED as asn1.Enumerated, OBJECT IDENTIFIER as asn1.ObjectIdentifier, ANY as empty interface, SEQUENCE and SET as struct, SEQUENCE OF and SET OF as slice of the element's Go type, and time types, also through references, as time.Time. "
  "Tags and constraints do not change the Go type of what they apply to, a reference is generated as the name of the referenced type, and a reference to a BIT STRING as asn1.BitString. "
  "Any kind of type that has no such representation is an error.",
  ["inputs", "configurations"], "all types, at any nesting, under all parameters",
  "Tests generate each type in one position at most.",
  [G], [("mapping of types", "codegen.go generateTypeBody, generateSpecialCase")],
  observe=["output of Generate"])

p("C14", "What can not be generated is an error, and a failed generation writes nothing",
  "If any part of a module can not be represented — automatic tagging, COMPONENTS OF, an unsupported type, an unresolvable or circular reference, a tag that is universal, repeated or not a plain number, a named number without a numeric value, an unknown integer representation — generation returns an error that reports each such part. "
  "When generation returns such an error, nothing was written to the output; when it returns no error, the whole output was written and a failure to write it would have been reported.",
  ["inputs", "configurations", "fault_sequences"], "all modules, parameters and writers",
  "Tests check two or three of these errors at top level; each can occur at any depth, and nothing tests what was written.",
  [G], [("errors are collected and checked before printing", "codegen.go Generate, appendError")],
  [("errors", "collected errors", "codegen.go moduleContext")],
  ["error and bytes written by Generate"])

p("C15", "Each component becomes exactly one struct field, in order",
  "The struct generated for a SEQUENCE or SET has exactly one field per component and per extension addition, in the order of the module with additions last, named after the component, of the Go type of the component's type and with the component's own tag. "
  "No component is dropped, duplicated, renamed after another or merged with another.",
  ["inputs"], "all lists of components and additions",
  "Tests have short lists and mostly no additions.",
  [G], [("fields from components", "codegen.go structFromComponents, generateStructField")],
  observe=["output of Generate"])

p("C16", "Field tags tell encoding/asn1 what the component's definition says",
  "The struct tag of a component says optional exactly when the component is OPTIONAL or has a DEFAULT, gives the default exactly when it is an integer, and gives the class, the number and, exactly when the tag is explicit by keyword or module default, the explicit mode of the tag written on the component. "
  "It marks SET and SET OF components as sets, components of IA5String, UTF8String and NumericString type, also constrained, tagged or through references, by their string type, and components that refer to a time type, also through references, by their time type. "
  "It says nothing else.",
  ["inputs", "configurations"], "all component definitions in modules of all tagging defaults",
  "Tests cover a few combinations of optionality, default, tag class, mode, module default, constraint and referenced type.",
  [G], [("tag from component", "codegen.go asn1TagFromType")],
  observe=["output of Generate"])

p("C17", "The output imports exactly the packages it uses",
  "The generated file imports encoding/asn1, math/big, math or time if and only if the generated code refers to that package, and imports each once. It refers to no other package.",
  ["inputs", "configurations"], "all modules and parameters",
  "Whether an import is needed depends on every construct of the module; tests compile a few modules.",
  [G], [("requirements recorded where qualified names are built", "codegen.go requireModule"), ("imports built from requirements", "codegen.go Generate")],
  observe=["output of Generate"])

p("C18", "Generated names are derived from ASN.1 names by one rule",
  "Every Go identifier derived from an ASN.1 name, in declarations as in uses, is that name with hyphens replaced by underscores and its first letter upper-cased, prefixed with Val for values, and prefixed with the type's name and Val for named numbers. "
  "The package clause is the configured package name, or the module's name under the same rule if none is configured; no ASN.1 name reaches the output in any other form.",
  ["inputs", "configurations"], "all names and parameters",
  "Tests use a few names; a declaration and its uses have to agree for every name.",
  [G], [("name rule", "codegen.go goifyName, valueRefToIdent")],
  observe=["output of Generate"])

p("C19", "References are resolved through the whole chain or reported",
  "A reference to a type is followed through any number of references, tags and constraints to the assignment that finally defines it in the module or to a built-in time type, and decisions that depend on the referenced type are taken on what it finally refers to. "
  "A reference that leads to no definition, or back to itself, is an error.",
  ["inputs"], "all reference chains and cycles",
  "Tests have chains of length one or two and no cycle.",
  [G, A], [("chain walk", "codegen.go unwrapToLeafType, resolveTypeReference"), ("lookup", "ast.go AssignmentList.Get")],
  observe=["output of Generate"])

p("C20", "Each type assignment is declared once, in order, in the right form",
  "The output declares each type assignment of the module exactly once and in order, under its own name: structs as defined types, every type that is itself a SET or SET OF as a defined type with suffix SET (by which encoding/asn1 recognises sets) plus an alias of the plain name, and everything else as alias. "
  "Being a SET is seen through tags and constraints of the type, and does not come from its elements or components.",
  ["inputs"], "all assignment lists and all types in them",
  "Tests declare a few types each.",
  [G], [("declarations", "codegen.go generateDeclarations, generateTypeDecl")],
  observe=["output of Generate"])

p("C21", "Values and named numbers keep their value and type",
  "Every value assignment with an integer, real or boolean value is generated once, in order, as a variable of the Go type of its ASN.1 type and with exactly that value, including sign, infinities, and integers of types represented as big integers. "
  "Every named number of an assigned INTEGER type is generated, in order, as a variable of that type with its own number or with the referenced value, and a reference that is not to a number of the module is an error.",
  ["inputs", "configurations"], "all value assignments and named number lists under all parameters",
  "Tests generate two or three values in the default representation.",
  [G], [("values", "codegen.go tryGenerateValueAssignment, numberToExpr"), ("named numbers", "codegen.go generateAssociatedValuesIfNeeded")],
  observe=["output of Generate"])

p("C22", "CHOICE is generated so that no alternative is lost",
  "A CHOICE is generated as asn1.RawValue if any of its root alternatives is tagged, in its own definition or at any step of the references it goes through, time types and constraints aside; otherwise as the type of its only root alternative if it has just one; and otherwise as empty interface.",
  ["inputs"], "all lists of alternatives and all chains of references in them",
  "Tests have three CHOICE types.",
  [G], [("choice", "codegen.go generateChoiceType, hasTaggedAlternatives, taggedChoiceTypeAlternative")],
  observe=["output of Generate"])

p("C23", "The command line tool writes complete output or reports failure",
  "The generator command exits with status 0 only after the complete output was written to the requested file or standard output; every failure to read, parse, generate or write is reported as text on standard error with a non-zero exit status. "
  "A run that fails before it has output leaves an existing output file as it was. "
  "It reads the named input or standard input, and passes package name and integer representation on as given. No combination of arguments makes it crash.",
  ["inputs", "configurations", "fault_sequences"], "all arguments, inputs and failures of files and streams",
  "The commands have no tests.",
  ["cmd/asn1go/main.go"], [("order of parse, generate, open and write; exit on each error", "cmd/asn1go/main.go main")],
  observe=["exit status, standard error, output file"])

p("C24", "Helper tools never hide a failure or alter data",
  "The hex dump converter outputs exactly the bytes listed after the offset column of each line, in order, accepts nothing but one-byte hexadecimal numbers there, and its command exits with non-zero status when reading or writing fails. "
  "Writing a value to a file writes the DER encoding of that value with the given mode, or returns the error of encoding or writing; running a helper program reports its failure and its output.",
  ["inputs", "fault_sequences"], "all dumps, values, paths, programs and failures",
  "One short dump is tested, and no failure.",
  ["cmd/ws2bin/main.go", "internal/utils/dump.go", "internal/utils/utils.go", "marshal.go"],
  [("conversion", "internal/utils/dump.go ParseWiresharkHex"), ("error returns", "marshal.go, internal/utils/utils.go, cmd/ws2bin/main.go")],
  observe=["return values, exit status, standard output"])

p("C25", "Looking an assignment up by name finds the first of that name, of that kind",
  "Looking a name up in a list of assignments returns the first assignment of that name, or nothing if there is none; looking up a type or a value returns that assignment if it is of the requested kind and nothing otherwise. "
  "Every assignment answers to its own reference, every literal value reports its own type, and negation and conversion of numbers are exact.",
  ["inputs"], "all assignment lists and names",
  "The lookup functions are only tested through generation of modules with few assignments.",
  [A], [("lookup", "ast.go AssignmentList.Get, GetType, GetValue"), ("accessors", "ast.go Reference, Name, Type, UnaryMinus")],
  observe=["results of the lookup functions"])

p("C26", "Generated code compiles for every module that is accepted",
  "For every module for which generation succeeds, the generated file is a valid Go package.",
  ["inputs", "configurations"], "all accepted modules",
  "Tests compile the output for a few modules.",
  [G], [("construction of the Go syntax tree", "codegen.go")], observe=["go build of the output"])

p("C27", "Values survive a round trip through generated code and encoding/asn1",
  "For every generated type, encoding a value with encoding/asn1 gives the DER encoding that the ASN.1 definition prescribes, and decoding that encoding gives the value back.",
  ["inputs"], "all generated types and all their values",
  "Examples decode and re-encode a few captured messages.",
  [G], [("field tags and type names", "codegen.go")], observe=["asn1.Marshal, asn1.Unmarshal"])

p("C28", "REAL literals denote the nearest representable number",
  "A REAL literal is read as the floating point number nearest to the decimal number written.",
  ["inputs"], "all literals", "Tests have four literals.",
  [PA], [("conversion by the standard library", "parser.go parseRealLiteral")], observe=["Real values in the AST"])

p("C29", "The grammar is the documented subset of X.680",
  "The grammar file accepts exactly the modules of X.680 that use only the supported constructs.",
  ["inputs"], "all texts", "There is no reference parser in the tests.",
  [Y], [("grammar", "asn1.y")], observe=["acceptance by ParseStream"])

p("C30", "Parsing a file closes it again",
  "Parsing a file leaves no file open: what was opened is closed again on every path, whether parsing succeeds or fails, and no earlier than parsing has ended.",
  ["inputs", "fault_sequences"], "all files and all failures to open, read or parse them",
  "Tests parse a few files and end; a descriptor that stays open shows in a long-lived program only, and often only on the paths that fail.",
  [PA], [("deferred close", "parser.go ParseFile")], observe=["open descriptors of the process after ParseFile"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))

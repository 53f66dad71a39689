AI = "abstract interpretation of SSA compared with a specification table"
CLAIMS = {
}
for _c in "C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C25".split():
    CLAIMS[_c] = AI
_G = "static comparison of the grammar's actions, as functions computed by abstract interpretation of the parser's SSA, with a specification of what each production stands for"
for _c in "C07 C08 C09 C28".split():
    CLAIMS[_c] = _G
CLAIMS["C10"] = "translation validation: bisimulation of the shipped parser with the one generated from the grammar file"
CLAIMS["C11"] = "effect, escape and alias analysis over the call graph of the parser"
CLAIMS["C12"] = "effect analysis over the call graph, and " + AI
_L = "product of the abstractly interpreted lexer with a reference scanner over all texts and reader failures"
CLAIMS["C01"] = _L + ", and path analysis of the entry points"
CLAIMS["C02"] = _L + ", ranking of loops and recursion over the call graph, and analysis of the grammar"
CLAIMS["C03"] = _L + ", and inductive nil, index and type analysis of parser actions and generator"
for _c in "C04 C05 C06".split():
    CLAIMS[_c] = _L
_W = "path analysis of the command in which every outside operation is followed both succeeding and failing (typestate of files, streams and exit statuses)"
for _c in "C23 C24".split():
    CLAIMS[_c] = _W
CLAIMS["C30"] = "typestate of opened files over all paths of the entry point"
NA = {
 "C26": "Whether the text produced for every accepted module is valid Go depends on runtime text: name clashes between assignments, keywords and predeclared names among generated identifiers, recursive value types. No static argument over the generator's source bounds the names a module can contain, and the generator deliberately leaves such modules to the Go compiler; the parts that can be decided statically are C13, C17, C18 and C20.",
 "C27": "Quantifies over runtime values and over the behaviour of encoding/asn1 of the standard library on generated code that is not part of the source; deciding it means running encoders or proving the standard library, neither of which is static analysis of this codebase. The static parts (Go types, struct tags, SET suffix, RawValue) are C13, C15, C16, C20 and C22.",
 "C29": "Equivalence of the grammar file with the grammar of X.680 is equivalence of context-free languages, undecidable in general, and the standard's grammar is not available as a machine-readable artefact here; many deviations are documented as intended subset. That the shipped parser implements the grammar file is C10.",
}

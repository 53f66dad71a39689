C = "codegen.go"
def e(*xs): return [(C, xs[i], xs[i+1]) for i in range(0, len(xs), 2)]
import re
SRC = open("/repo/codegen.go").read()
def fn(name):
    """Text of a function of codegen.go."""
    m = re.search(r"^func (\([^)]*\) )?%s\(.*?^}\n" % name, SRC, re.S | re.M)
    return m.group(0)

ERRS = """		msg := "errors generating Go AST from module: \\n"
		for _, err := range ctx.errors {
			msg += "  " + err.Error() + "\\n"
		}
		return errors.New(msg)
	}
"""
IMPS = """	importDecls := make([]goast.Decl, 0)
	for _, moduleName := range ctx.requiredModules {
		modulePath := &goast.BasicLit{Kind: gotoken.STRING, Value: fmt.Sprintf("\\"%v\\"", moduleName)}
		specs := []goast.Spec{&goast.ImportSpec{Path: modulePath}}
		importDecls = append(importDecls, &goast.GenDecl{Tok: gotoken.IMPORT, Specs: specs})
	}
	ast.Decls = append(importDecls, ast.Decls...)
"""
CTX = """	ctx := moduleContext{
		extensibilityImplied: module.ExtensibilityImplied,
		tagDefault:           module.TagDefault,
		lookupContext:        module.ModuleBody,
		params:               gen.Params,
	}
"""
NAME = """	moduleName := goast.NewIdent(goifyName(module.ModuleIdentifier.Reference))
	if len(gen.Params.Package) > 0 {
		moduleName = goast.NewIdent(gen.Params.Package)
	}
"""
QUIET = [
 ("errors-builder", e(ERRS, """		return joinErrors(ctx.errors)
	}
""", "func goifyName(", """// joinErrors reports all errors as one.
func joinErrors(errs []error) error {
	var msg strings.Builder
	msg.WriteString("errors generating Go AST from module: \\n")
	for _, err := range errs {
		fmt.Fprintf(&msg, "  %v\\n", err)
	}
	return errors.New(msg.String())
}

func goifyName(""")),
 ("errors-method", e("	if len(ctx.errors) != 0 {\n" + ERRS, """	if err := ctx.err(); err != nil {
		return err
	}
""", "func goifyName(", """// err is nil if there were no errors.
func (ctx *moduleContext) err() error {
	if len(ctx.errors) == 0 {
		return nil
	}
	lines := make([]string, 0, len(ctx.errors))
	for _, err := range ctx.errors {
		lines = append(lines, "  "+err.Error()+"\\n")
	}
	return errors.New("errors generating Go AST from module: \\n" + strings.Join(lines, ""))
}

func goifyName(""")),
 ("imports-method", e(IMPS, """	ast.Decls = append(ctx.importDecls(), ast.Decls...)
""", "func goifyName(", """func (ctx *moduleContext) importDecls() []goast.Decl {
	decls := make([]goast.Decl, 0, len(ctx.requiredModules))
	for _, path := range ctx.requiredModules {
		decls = append(decls, importDecl(path))
	}
	return decls
}

func importDecl(path string) goast.Decl {
	return &goast.GenDecl{
		Tok: gotoken.IMPORT,
		Specs: []goast.Spec{
			&goast.ImportSpec{Path: &goast.BasicLit{Kind: gotoken.STRING, Value: "\\"" + path + "\\""}},
		},
	}
}

func goifyName(""")),
 ("imports-quote", e('fmt.Sprintf("\\"%v\\"", moduleName)', 'strconv.Quote(moduleName)', '	"math"\n', '	"math"\n	"strconv"\n')),
 ("imports-index", e("	for _, moduleName := range ctx.requiredModules {\n", "	for i := 0; i < len(ctx.requiredModules); i++ {\n		moduleName := ctx.requiredModules[i]\n")),
 ("imports-one-list", e(IMPS, """	decls := make([]goast.Decl, 0, len(ctx.requiredModules)+len(ast.Decls))
	for _, moduleName := range ctx.requiredModules {
		modulePath := &goast.BasicLit{Kind: gotoken.STRING, Value: fmt.Sprintf("%q", moduleName)}
		decls = append(decls, &goast.GenDecl{Tok: gotoken.IMPORT, Specs: []goast.Spec{&goast.ImportSpec{Path: modulePath}}})
	}
	for _, decl := range ast.Decls {
		decls = append(decls, decl)
	}
	ast.Decls = decls
""")),
 ("ctx-new", e(CTX, "	ctx := newModuleContext(module, gen.Params)\n", "func goifyName(", """func newModuleContext(module ModuleDefinition, params GenParams) *moduleContext {
	return &moduleContext{
		extensibilityImplied: module.ExtensibilityImplied,
		tagDefault:           module.TagDefault,
		lookupContext:        module.ModuleBody,
		params:               params,
	}
}

func goifyName(""")),
 ("ctx-assign", e(CTX, """	var ctx moduleContext
	ctx.params = gen.Params
	ctx.lookupContext = module.ModuleBody
	ctx.tagDefault = module.TagDefault
	ctx.extensibilityImplied = module.ExtensibilityImplied
""")),
 ("package-name", e(NAME, "	moduleName := goast.NewIdent(gen.packageName(module))\n", "func goifyName(", """// packageName is the name in the package clause.
func (gen declCodeGen) packageName(module ModuleDefinition) string {
	if gen.Params.Package != "" {
		return gen.Params.Package
	}
	return goifyName(module.ModuleIdentifier.Reference)
}

func goifyName(""")),
 ("package-switch", e(NAME, """	var packageName string
	switch {
	case gen.Params.Package == "":
		packageName = goifyName(module.ModuleIdentifier.Reference)
	default:
		packageName = gen.Params.Package
	}
	moduleName := &goast.Ident{Name: packageName}
""")),
 ("generate-file-helper", e("""	ast := &goast.File{
		Name:  moduleName,
		Decls: ctx.generateDeclarations(module),
	}
""", """	decls := ctx.generateDeclarations(module)
	ast := &goast.File{Name: moduleName}
	ast.Decls = decls
""")),
 ("generate-build", e(fn("Generate"), """func (gen declCodeGen) Generate(module ModuleDefinition, writer io.Writer) error {
	file, err := gen.buildFile(module)
	if err != nil {
		return err
	}
	return goprint.Fprint(writer, gotoken.NewFileSet(), file)
}

// buildFile makes the syntax tree of the generated file.
func (gen declCodeGen) buildFile(module ModuleDefinition) (*goast.File, error) {
""" + fn("Generate").split("\n", 1)[1].replace('return errors.New(', 'return nil, errors.New(').replace("	return goprint.Fprint(writer, gotoken.NewFileSet(), ast)\n", "	return ast, nil\n"))),
 ("decls-per-assignment", e(fn("generateDeclarations"), """func (ctx *moduleContext) generateDeclarations(module ModuleDefinition) []goast.Decl {
	decls := make([]goast.Decl, 0)
	for _, assignment := range module.ModuleBody.AssignmentList {
		decls = append(decls, ctx.declsOf(assignment)...)
	}
	return decls
}

// declsOf are the declarations an assignment gives.
func (ctx *moduleContext) declsOf(assignment Assignment) []goast.Decl {
	switch a := assignment.(type) {
	case TypeAssignment:
		decls := []goast.Decl{ctx.generateTypeDecl(a.TypeReference, a.Type)}
		if decl := ctx.generateAssociatedValuesIfNeeded(a.TypeReference, a.Type); decl != nil {
			decls = append(decls, decl)
		}
		return decls
	case ValueAssignment:
		if decl := ctx.tryGenerateValueAssignment(a.ValueReference, a.Type, a.Value); decl != nil {
			return []goast.Decl{decl}
		}
	}
	return nil
}
""")),
 ("decls-add", e(fn("generateDeclarations"), """func (ctx *moduleContext) generateDeclarations(module ModuleDefinition) []goast.Decl {
	decls := make([]goast.Decl, 0)
	add := func(decl goast.Decl) {
		if decl != nil {
			decls = append(decls, decl)
		}
	}
	for _, assignment := range module.ModuleBody.AssignmentList {
		switch a := assignment.(type) {
		case TypeAssignment:
			add(ctx.generateTypeDecl(a.TypeReference, a.Type))
			add(ctx.generateAssociatedValuesIfNeeded(a.TypeReference, a.Type))
		case ValueAssignment:
			add(ctx.tryGenerateValueAssignment(a.ValueReference, a.Type, a.Value))
		}
	}
	return decls
}
""")),
 ("typedecl-assign", e(fn("generateTypeDecl"), """func (ctx *moduleContext) generateTypeDecl(reference TypeReference, typeDescr Type) goast.Decl {
	name := goifyName(reference.Name())
	isSet := false
	body := ctx.generateTypeBody(typeDescr, &isSet)
	if isSet {
		return &goast.GenDecl{Tok: gotoken.TYPE, Specs: []goast.Spec{
			newTypeSpec(name+"SET", body, false),
			newTypeSpec(name, goast.NewIdent(name+"SET"), true),
		}}
	}
	_, isStruct := body.(*goast.StructType)
	return &goast.GenDecl{Tok: gotoken.TYPE, Specs: []goast.Spec{newTypeSpec(name, body, !isStruct)}}
}

func newTypeSpec(name string, body goast.Expr, alias bool) *goast.TypeSpec {
	spec := &goast.TypeSpec{Name: goast.NewIdent(name), Type: body}
	if alias {
		spec.Assign = 1 // not a valid Pos, but formatter just needs non-empty value
	}
	return spec
}
""")),
 ("typedecl-suffix", e(fn("generateTypeDecl"), """func (ctx *moduleContext) generateTypeDecl(reference TypeReference, typeDescr Type) goast.Decl {
	var isSet bool
	typeBody := ctx.generateTypeBody(typeDescr, &isSet)
	plain := goifyName(reference.Name())
	declared := plain
	if isSet {
		declared = plain + "SET"
	}
	assign := gotoken.Pos(1)
	if _, ok := typeBody.(*goast.StructType); ok || isSet {
		assign = gotoken.NoPos
	}
	specs := []goast.Spec{&goast.TypeSpec{Name: goast.NewIdent(declared), Type: typeBody, Assign: assign}}
	if declared != plain {
		specs = append(specs, &goast.TypeSpec{Name: goast.NewIdent(plain), Assign: 1, Type: goast.NewIdent(declared)})
	}
	return &goast.GenDecl{Tok: gotoken.TYPE, Specs: specs}
}
""")),
 ("value-itoa", e("			valExpr = &goast.BasicLit{Value: fmt.Sprint(val.IntValue())}\n", "			valExpr = &goast.BasicLit{Value: strconv.Itoa(val.IntValue())}\n", "	valueExpr = &goast.BasicLit{Value: fmt.Sprint(val.IntValue())}\n", '	valueExpr = &goast.BasicLit{Value: fmt.Sprintf("%d", val)}\n', '	"math"\n', '	"math"\n	"strconv"\n')),
 ("value-formatbool", e("""		if val {
			valExpr = &goast.BasicLit{Value: "true"}
		} else {
			valExpr = &goast.BasicLit{Value: "false"}
		}
""", """		valExpr = &goast.BasicLit{Value: strconv.FormatBool(bool(val))}
""", '	"math"\n', '	"math"\n	"strconv"\n')),
 ("value-sprintbool", e("""		if val {
			valExpr = &goast.BasicLit{Value: "true"}
		} else {
			valExpr = &goast.BasicLit{Value: "false"}
		}
""", """		valExpr = &goast.BasicLit{Value: fmt.Sprint(bool(val))}
""")),
 ("value-literal-helper", e("""		if val {
			valExpr = &goast.BasicLit{Value: "true"}
		} else {
			valExpr = &goast.BasicLit{Value: "false"}
		}
""", """		literal := "false"
		if val {
			literal = "true"
		}
		valExpr = literalExpr(literal)
""", "func valueRefToIdent(", """func literalExpr(value string) goast.Expr {
	return &goast.BasicLit{Value: value}
}

func valueRefToIdent(""")),
 ("value-formatfloat", e("valExpr = &goast.BasicLit{Value: fmt.Sprint(val)}", "valExpr = &goast.BasicLit{Value: strconv.FormatFloat(float64(val), 'g', -1, 64)}", '	"math"\n', '	"math"\n	"strconv"\n')),
 ("value-infinity-helper", e("""			sign := "1"
			if val < 0 {
				sign = "-1"
			}
			ctx.requireModule("math")
			valExpr = &goast.CallExpr{Fun: goast.NewIdent("math.Inf"), Args: []goast.Expr{&goast.BasicLit{Value: sign}}}
""", """			valExpr = ctx.infinityExpr(val < 0)
""", "func valueRefToIdent(", """func (ctx *moduleContext) infinityExpr(negative bool) goast.Expr {
	ctx.requireModule("math")
	sign := &goast.BasicLit{Value: "1"}
	if negative {
		sign.Value = "-1"
	}
	return &goast.CallExpr{Fun: goast.NewIdent("math.Inf"), Args: []goast.Expr{sign}}
}

func valueRefToIdent(""")),
 ("value-returns", e(fn("tryGenerateValueAssignment"), """func (ctx *moduleContext) tryGenerateValueAssignment(ref ValueReference, t Type, val Value) goast.Decl {
	valExpr := ctx.valueExpr(t, val)
	if valExpr == nil {
		// TODO: produce a warning?
		return nil
	}
	var stubIsSet bool
	spec := &goast.ValueSpec{
		Names:  []*goast.Ident{valueRefToIdent(ref)},
		Type:   ctx.generateTypeBody(t, &stubIsSet),
		Values: []goast.Expr{valExpr},
	}
	return &goast.GenDecl{Tok: gotoken.VAR, Specs: []goast.Spec{spec}}
}

// valueExpr is the Go expression for a value, or nil if it is not supported.
func (ctx *moduleContext) valueExpr(t Type, val Value) goast.Expr {
	switch val := val.(type) {
	case Number:
		if !ctx.isRealType(t) {
			return ctx.numberToExpr(val)
		}
		return &goast.BasicLit{Value: fmt.Sprint(val.IntValue())}
	case Boolean:
		if val {
			return &goast.BasicLit{Value: "true"}
		}
		return &goast.BasicLit{Value: "false"}
	case Real:
		switch {
		case math.IsInf(float64(val), 1):
			return ctx.infinity("1")
		case math.IsInf(float64(val), -1):
			return ctx.infinity("-1")
		}
		return &goast.BasicLit{Value: fmt.Sprint(val)}
	}
	return nil
}

func (ctx *moduleContext) infinity(sign string) goast.Expr {
	ctx.requireModule("math")
	return &goast.CallExpr{Fun: goast.NewIdent("math.Inf"), Args: []goast.Expr{&goast.BasicLit{Value: sign}}}
}
""")),
 ("body-asn1-helper", e("""		ctx.requireModule("encoding/asn1")
		return goast.NewIdent("asn1.BitString")
	case EnumeratedType:
		// TODO: generate consts
		ctx.requireModule("encoding/asn1")
		return goast.NewIdent("asn1.Enumerated")
""", """		return ctx.asn1Ident("BitString")
	case EnumeratedType:
		// TODO: generate consts
		return ctx.asn1Ident("Enumerated")
""", """		ctx.requireModule("encoding/asn1")
		return goast.NewIdent("asn1.ObjectIdentifier")
""", """		return ctx.asn1Ident("ObjectIdentifier")
""", """		ctx.requireModule("encoding/asn1")
		return goast.NewIdent("asn1.RawValue")
""", """		return ctx.asn1Ident("RawValue")
""", "func valueRefToIdent(", """// asn1Ident is an identifier of package encoding/asn1, which is going to be imported.
func (ctx *moduleContext) asn1Ident(name string) goast.Expr {
	ctx.requireModule("encoding/asn1")
	return goast.NewIdent("asn1." + name)
}

func valueRefToIdent(""")),
 ("body-selector", e("""		return goast.NewIdent("asn1.Enumerated")
""", """		return &goast.SelectorExpr{X: goast.NewIdent("asn1"), Sel: goast.NewIdent("Enumerated")}
""")),
 ("body-reference-helper", e("""		nameAndType := ctx.resolveTypeReference(t)
		if nameAndType != nil {
			specialCase := ctx.generateSpecialCase(*nameAndType)
			if specialCase != nil {
				return specialCase
			}
		}
		return goast.NewIdent(goifyName(t.Name()))
""", """		return ctx.generateReference(t)
""", "func valueRefToIdent(", """func (ctx *moduleContext) generateReference(reference TypeReference) goast.Expr {
	if resolved := ctx.resolveTypeReference(reference); resolved != nil {
		if special := ctx.generateSpecialCase(*resolved); special != nil {
			return special
		}
	}
	return goast.NewIdent(goifyName(reference.Name()))
}

func valueRefToIdent(""")),
 ("body-ifs-first", e("""	switch t := typeDescr.(type) {
	case BooleanType:
		return goast.NewIdent("bool")
""", """	if reference, ok := typeDescr.(TypeReference); ok {
		if resolved := ctx.resolveTypeReference(reference); resolved != nil {
			if special := ctx.generateSpecialCase(*resolved); special != nil {
				return special
			}
		}
		return goast.NewIdent(goifyName(reference.Name()))
	}
	switch t := typeDescr.(type) {
	case BooleanType:
		return goast.NewIdent("bool")
""", """	case TypeReference: // TODO should useful types be separate type by itself?
		nameAndType := ctx.resolveTypeReference(t)
		if nameAndType != nil {
			specialCase := ctx.generateSpecialCase(*nameAndType)
			if specialCase != nil {
				return specialCase
			}
		}
		return goast.NewIdent(goifyName(t.Name()))
""", "")),
 ("body-set-shared", e("""	case SequenceType:
		return ctx.structFromComponents(t.Components, t.ExtensionAdditions)
	case SetType:
		*isSet = true
		return ctx.structFromComponents(t.Components, t.ExtensionAdditions)
""", """	case SetType:
		body := ctx.structFromComponents(t.Components, t.ExtensionAdditions)
		*isSet = true
		return body
	case SequenceType:
		return ctx.structFromComponents(t.Components, t.ExtensionAdditions)
""")),
 ("body-set-convert", e("""	case SetType:
		*isSet = true
		return ctx.structFromComponents(t.Components, t.ExtensionAdditions)
""", """	case SetType:
		*isSet = true
		return ctx.generateTypeBody(SequenceType{Components: t.Components, ExtensionAdditions: t.ExtensionAdditions}, isSet)
""")),
 ("body-empty-interface", e("""	case AnyType:
		return &goast.InterfaceType{Methods: &goast.FieldList{}}
""", """	case AnyType:
		return emptyInterface()
""", """		return ctx.generateTypeBody(t.AlternativeTypeList[0].Type, isSet) // optimization for X.509 edge case
	}
	return &goast.InterfaceType{Methods: &goast.FieldList{}}
""", """		return ctx.generateTypeBody(t.AlternativeTypeList[0].Type, isSet) // optimization for X.509 edge case
	}
	return emptyInterface()
""", "func valueRefToIdent(", """func emptyInterface() goast.Expr {
	return &goast.InterfaceType{Methods: &goast.FieldList{}}
}

func valueRefToIdent(""")),
 ("body-integer-if", e("""		switch ctx.params.IntegerRepr {
		case IntegerReprInt64:
			return goast.NewIdent("int64") // TODO signed, unsigned, range constraints
		case IntegerReprBigInt:
			ctx.requireModule("math/big")
			return &goast.StarExpr{X: goast.NewIdent("big.Int")}
		default:
			ctx.appendError(fmt.Errorf("unknown int type mode: %v", ctx.params.IntegerRepr))
			return goast.NewIdent("int64")
		}
""", """		repr := ctx.params.IntegerRepr
		if repr == IntegerReprBigInt {
			ctx.requireModule("math/big")
			return &goast.StarExpr{X: goast.NewIdent("big.Int")}
		}
		if repr != IntegerReprInt64 {
			ctx.appendError(fmt.Errorf("unknown int type mode: %v", repr))
		}
		return goast.NewIdent("int64")
""")),
 ("numbers-spec-helper", e(fn("generateAssociatedValuesIfNeeded"), """func (ctx *moduleContext) generateAssociatedValuesIfNeeded(reference TypeReference, typeDescr Type) goast.Decl {
	integer, ok := ctx.removeWrapperTypes(typeDescr).(IntegerType)
	if !ok || len(integer.NamedNumberList) == 0 {
		return nil
	}
	typeName := goifyName(reference.Name())
	decl := &goast.GenDecl{Tok: gotoken.VAR}
	for i := range integer.NamedNumberList {
		number := integer.NamedNumberList[i]
		decl.Specs = append(decl.Specs, &goast.ValueSpec{
			Names:  []*goast.Ident{goast.NewIdent(typeName + "Val" + goifyName(number.Name.Name()))},
			Type:   goast.NewIdent(typeName),
			Values: []goast.Expr{ctx.namedNumberExpr(number)},
		})
	}
	return decl
}

func (ctx *moduleContext) namedNumberExpr(number NamedNumber) goast.Expr {
	switch v := number.Value.(type) {
	case Number:
		return ctx.numberToExpr(v)
	case DefinedValue:
		if err := ctx.checkNumber(v); err != nil {
			ctx.appendError(err)
		}
		return valueRefToIdent(v.ValueName)
	}
	return nil
}

// checkNumber tells why v is not a number of this module.
func (ctx *moduleContext) checkNumber(v DefinedValue) error {
	if v.ModuleName != "" {
		return fmt.Errorf("%v.%v: value references from other modules are not supported", v.ModuleName, v.ValueName)
	}
	assignment := ctx.lookupContext.AssignmentList.GetValue(v.ValueName.Name())
	if assignment == nil {
		return fmt.Errorf("can not resolve ValueReference %v", v.ValueName)
	}
	if _, ok := assignment.Value.(Number); !ok {
		return fmt.Errorf("value of %v should be a number to be used as a named number", v.ValueName)
	}
	return nil
}
""")),
 ("choice-any-closure", e(fn("hasTaggedAlternatives"), """func (ctx *moduleContext) hasTaggedAlternatives(t ChoiceType) bool {
	tagged := func(f NamedType) bool { return ctx.taggedChoiceTypeAlternative(f.Identifier, f.Type) }
	for i := range t.AlternativeTypeList {
		if tagged(t.AlternativeTypeList[i]) {
			return true
		}
	}
	return false
}
""")),
 ("choice-counting", e(fn("hasTaggedAlternatives"), """func (ctx *moduleContext) hasTaggedAlternatives(t ChoiceType) bool {
	result := false
	for _, f := range t.AlternativeTypeList {
		result = result || ctx.taggedChoiceTypeAlternative(f.Identifier, f.Type)
	}
	return result
}
""")),
 ("tagged-no-name", e("ctx.taggedChoiceTypeAlternative(f.Identifier, f.Type)", "ctx.taggedChoiceTypeAlternative(f.Type)", fn("taggedChoiceTypeAlternative"), fn("taggedChoiceTypeAlternative").replace("name Identifier, t Type", "t Type").replace("(name, ", "("))),
 ("tagged-time-helper", e("""		if t.Name() == GeneralizedTimeName || t.Name() == UTCTimeName {
			return false
		}
		realType""", """		if isTimeName(t.Name()) {
			return false
		}
		realType""", "	if resolved.TypeReference.Name() == GeneralizedTimeName || resolved.TypeReference.Name() == UTCTimeName {\n", "	if isTimeName(resolved.TypeReference.Name()) {\n", "func valueRefToIdent(", """func isTimeName(name string) bool {
	switch name {
	case GeneralizedTimeName, UTCTimeName:
		return true
	}
	return false
}

func valueRefToIdent(""")),
 ("struct-components-list", e(fn("structFromComponents"), """func (ctx *moduleContext) structFromComponents(components ComponentTypeList, extensions ExtensionAdditions) goast.Expr {
	var list []*goast.Field
	add := func(component interface{}) {
		switch f := component.(type) {
		case NamedComponentType:
			list = append(list, ctx.generateStructField(f))
		case ComponentsOfComponentType: // TODO: implement
			ctx.appendError(errors.New("COMPONENTS OF is not supported"))
		}
	}
	for _, component := range components {
		add(component)
	}
	for _, addition := range extensions {
		add(addition)
	}
	return &goast.StructType{Fields: &goast.FieldList{List: list}}
}
""")),
 ("struct-field-or-nil", e(fn("structFromComponents"), """func (ctx *moduleContext) structFromComponents(components ComponentTypeList, extensions ExtensionAdditions) goast.Expr {
	fields := new(goast.FieldList)
	for _, component := range components {
		if field := ctx.componentField(component); field != nil {
			fields.List = append(fields.List, field)
		}
	}
	for _, addition := range extensions {
		if field := ctx.componentField(addition); field != nil {
			fields.List = append(fields.List, field)
		}
	}
	return &goast.StructType{Fields: fields}
}

// componentField is the field for a component, or nil if there is none.
func (ctx *moduleContext) componentField(component interface{}) *goast.Field {
	if f, ok := component.(NamedComponentType); ok {
		return ctx.generateStructField(f)
	}
	if _, ok := component.(ComponentsOfComponentType); ok { // TODO: implement
		ctx.appendError(errors.New("COMPONENTS OF is not supported"))
	}
	return nil
}
""")),
 ("tag-optional-or", e("""	if nt.IsOptional {
		components = append(components, "optional")
	}
	if nt.Default != nil {
		if defaultNumber, ok := (*nt.Default).(Number); ok {
			components = append(components, fmt.Sprintf("default:%v", defaultNumber.IntValue()))
		}
		if !nt.IsOptional { // ensure it's marked as optional
			components = append(components, "optional")
		}
	}
""", """	if nt.IsOptional || nt.Default != nil {
		components = append(components, "optional")
	}
	if nt.Default != nil {
		if number, ok := (*nt.Default).(Number); ok {
			components = append(components, "default:"+strconv.Itoa(number.IntValue()))
		}
	}
""", '	"math"\n', '	"math"\n	"strconv"\n')),
 ("tag-presence-helper", e("""	components := make([]string, 0)
	if nt.IsOptional {
		components = append(components, "optional")
	}
	if nt.Default != nil {
		if defaultNumber, ok := (*nt.Default).(Number); ok {
			components = append(components, fmt.Sprintf("default:%v", defaultNumber.IntValue()))
		}
		if !nt.IsOptional { // ensure it's marked as optional
			components = append(components, "optional")
		}
	}
""", """	components := presenceOptions(nt)
""", "func valueRefToIdent(", """// presenceOptions are the options that say that a component can be left out.
func presenceOptions(nt NamedComponentType) []string {
	options := []string{}
	if nt.Default == nil {
		if nt.IsOptional {
			options = append(options, "optional")
		}
		return options
	}
	if number, ok := (*nt.Default).(Number); ok {
		options = append(options, fmt.Sprintf("default:%d", number.IntValue()))
	}
	return append(options, "optional")
}

func valueRefToIdent(""")),
 ("tag-type-options", e("""	// add type-specific tags
	switch tt := t.(type) {
	case RestrictedStringType:
		switch tt.LexType {
		case IA5String:
			components = append(components, "ia5")
		case UTF8String:
			components = append(components, "utf8")
		case NumericString:
			components = append(components, "numeric")
		case PrintableString:
			// default type
		}
	case SetType:
		components = append(components, "set")
	case SetOfType:
		components = append(components, "set")
	case TypeReference:
		switch ctx.unwrapToLeafType(tt).TypeReference.Name() {
		case GeneralizedTimeName:
			components = append(components, "generalized")
		case UTCTimeName:
			components = append(components, "utc")
		}
		// TODO omitempty    causes empty slices to be skipped\\
	}
""", """	if option := ctx.typeOption(t); option != "" {
		components = append(components, option)
	}
""", "func valueRefToIdent(", """// typeOption is what encoding/asn1 has to know of a type.
func (ctx *moduleContext) typeOption(t Type) string {
	switch tt := t.(type) {
	case RestrictedStringType:
		switch tt.LexType {
		case IA5String:
			return "ia5"
		case UTF8String:
			return "utf8"
		case NumericString:
			return "numeric"
		}
	case SetType, SetOfType:
		return "set"
	case TypeReference:
		switch ctx.unwrapToLeafType(tt).TypeReference.Name() {
		case GeneralizedTimeName:
			return "generalized"
		case UTCTimeName:
			return "utc"
		}
	}
	return ""
}

func valueRefToIdent(""")),
 ("tag-option-maps", e("""		switch tt.LexType {
		case IA5String:
			components = append(components, "ia5")
		case UTF8String:
			components = append(components, "utf8")
		case NumericString:
			components = append(components, "numeric")
		case PrintableString:
			// default type
		}
""", """		if option, ok := stringOptions[tt.LexType]; ok {
			components = append(components, option)
		}
""", "func valueRefToIdent(", """// stringOptions name string types, PrintableString is the default.
var stringOptions = map[int]string{
	IA5String:     "ia5",
	UTF8String:    "utf8",
	NumericString: "numeric",
}

func valueRefToIdent(""")),
 ("tag-class-map", e("""			switch tt.Tag.Class {
			case CLASS_APPLICATION:
				components = append(components, "application")
			case CLASS_PRIVATE:
				components = append(components, "private")
			case CLASS_UNIVERSAL: // has no equivalent in encoding/asn1
				ctx.appendError(fmt.Errorf("field %v: UNIVERSAL tags are not supported", nt.NamedType.Identifier))
			}
""", """			if class, err := classOption(tt.Tag.Class); err != nil {
				ctx.appendError(fmt.Errorf("field %v: %v", nt.NamedType.Identifier, err))
			} else if class != "" {
				components = append(components, class)
			}
""", "func valueRefToIdent(", """func classOption(class int) (string, error) {
	switch class {
	case CLASS_APPLICATION:
		return "application", nil
	case CLASS_PRIVATE:
		return "private", nil
	case CLASS_UNIVERSAL: // has no equivalent in encoding/asn1
		return "", errors.New("UNIVERSAL tags are not supported")
	default:
		return "", nil
	}
}

func valueRefToIdent(""")),
 ("tag-flag-loop", e("unwrap:\n	for {\n", "	for done := false; !done; {\n", "			break unwrap\n", "			done = true\n")),
 ("tag-count", e("			if tagged { //", "			if tags > 0 { //", "			tagged = true\n", "			tags++\n", "	tagged := false\n", "	tags := 0\n")),
 ("tag-number-if", e("""			switch cn := ctx.lookupValue(tt.Tag.ClassNumber).(type) {
			case Number:
				components = append(components, fmt.Sprintf("tag:%v", cn.IntValue()))
			default:
				ctx.appendError(fmt.Errorf("tag value should be Number, got %#v", cn))
			}
""", """			value := ctx.lookupValue(tt.Tag.ClassNumber)
			number, isNumber := value.(Number)
			if !isNumber {
				ctx.appendError(fmt.Errorf("tag value should be Number, got %#v", value))
			} else {
				components = append(components, fmt.Sprint("tag:", number.IntValue()))
			}
""")),
 ("tag-mode-helper", e("""			tagType := ctx.tagDefault
			if tt.HasTagType {
				tagType = tt.TagType
			}
			switch tagType {
""", """			switch ctx.tagMode(tt) {
""", "func valueRefToIdent(", """func (ctx *moduleContext) tagMode(t TaggedType) int {
	if t.HasTagType {
		return t.TagType
	}
	return ctx.tagDefault
}

func valueRefToIdent(""")),
 ("tag-literal-helper", e("""	if len(components) > 0 {
		return &goast.BasicLit{
			Value: fmt.Sprintf("`asn1:\\"%s\\"`", strings.Join(components, ",")),
			Kind:  gotoken.STRING,
		}
	} else {
		return nil
	}
""", """	return structTag(components)
""", "func valueRefToIdent(", """func structTag(options []string) *goast.BasicLit {
	if len(options) == 0 {
		return nil
	}
	return &goast.BasicLit{Kind: gotoken.STRING, Value: "`asn1:\\"" + strings.Join(options, ",") + "\\"`"}
}

func valueRefToIdent(""")),
 ("tag-leaf-helper", e("""	if reference, ok := t.(TypeReference); ok {
		// referenced string type is generated as plain string, hence needs the same tag
		leaf := ctx.removeWrapperTypes(ctx.unwrapToLeafType(reference).Type)
		if stringType, ok := leaf.(RestrictedStringType); ok {
			t = stringType
		}
	}
""", """	if reference, ok := t.(TypeReference); ok {
		// referenced string type is generated as plain string, hence needs the same tag
		if stringType, ok := ctx.leafType(reference).(RestrictedStringType); ok {
			t = stringType
		}
	}
""", """		t = ctx.removeWrapperTypes(ctx.unwrapToLeafType(reference).Type)
	}
	_, ok := t.(RealType)
""", """		t = ctx.leafType(reference)
	}
	_, ok := t.(RealType)
""", "func valueRefToIdent(", """// leafType is what the type is that a reference leads to, without tags and constraints.
func (ctx *moduleContext) leafType(reference TypeReference) Type {
	return ctx.removeWrapperTypes(ctx.unwrapToLeafType(reference).Type)
}

func valueRefToIdent(""")),
 ("resolve-early", e(fn("resolveTypeReference"), """func (ctx *moduleContext) resolveTypeReference(reference TypeReference) *TypeAssignment {
	leaf := ctx.unwrapToLeafType(reference)
	if leaf.Type == nil {
		leaf.Type = ctx.lookupUsefulType(leaf.TypeReference)
	}
	if leaf.Type == nil {
		ctx.appendError(fmt.Errorf("can not resolve TypeReference %v", reference.Name()))
		return nil
	}
	return &leaf
}
""")),
 ("useful-index", e(fn("lookupUsefulType"), """func (ctx *moduleContext) lookupUsefulType(reference TypeReference) Type {
	return USEFUL_TYPES[reference.Name()]
}
""")),
 ("leaf-recursive", e(fn("unwrapToLeafType"), """func (ctx *moduleContext) unwrapToLeafType(reference TypeReference) TypeAssignment {
	return ctx.leafFrom(reference, make(map[TypeReference]bool))
}

func (ctx *moduleContext) leafFrom(reference TypeReference, visited map[TypeReference]bool) TypeAssignment {
	if visited[reference] {
		return TypeAssignment{reference, nil}
	}
	visited[reference] = true
	assignment := ctx.lookupContext.AssignmentList.GetType(reference.Name())
	if assignment == nil {
		return TypeAssignment{reference, nil}
	}
	if next, ok := ctx.removeWrapperTypes(assignment.Type).(TypeReference); ok {
		return ctx.leafFrom(next, visited)
	}
	return *assignment
}
""")),
 ("leaf-steps", e(fn("unwrapToLeafType"), """func (ctx *moduleContext) unwrapToLeafType(reference TypeReference) TypeAssignment {
	for visited := map[TypeReference]bool{}; !visited[reference]; {
		visited[reference] = true
		assignment := ctx.findType(reference)
		if assignment == nil {
			return TypeAssignment{TypeReference: reference}
		}
		next, isReference := ctx.removeWrapperTypes(assignment.Type).(TypeReference)
		if !isReference {
			return *assignment
		}
		reference = next
	}
	return TypeAssignment{TypeReference: reference}
}

// findType is the assignment of a type in the module, or nil.
func (ctx *moduleContext) findType(reference TypeReference) *TypeAssignment {
	return ctx.lookupContext.AssignmentList.GetType(reference.Name())
}
""")),
 ("leaf-empty-struct", e("	visited := make(map[TypeReference]bool)\n	for !visited[reference] {\n		visited[reference] = true\n", "	visited := make(map[TypeReference]struct{})\n	for {\n		if _, seen := visited[reference]; seen {\n			break\n		}\n		visited[reference] = struct{}{}\n")),
 ("leaf-slice", e("	visited := make(map[TypeReference]bool)\n	for !visited[reference] {\n		visited[reference] = true\n", "	var visited []TypeReference\n	for !containsReference(visited, reference) {\n		visited = append(visited, reference)\n", "func valueRefToIdent(", """func containsReference(references []TypeReference, reference TypeReference) bool {
	for _, r := range references {
		if r == reference {
			return true
		}
	}
	return false
}

func valueRefToIdent(""")),
 ("factory-map", e(fn("NewCodeGenerator"), fn("NewCodeGenerator").replace("func NewCodeGenerator(params GenParams) CodeGenerator {\n", "func NewCodeGenerator(params GenParams) CodeGenerator {\n	_ = params.Package\n"))),
 ("set-result", None),
]
# the flag for SET as second result instead of a pointer
_s = SRC
_s = _s.replace("	typeBody := ctx.generateTypeBody(typeDescr, &isSet)\n", "	typeBody, isSet := ctx.generateTypeBody(typeDescr)\n").replace("	var isSet bool\n	typeBody", "	typeBody")
_b = fn("generateTypeBody")
_n = _b.replace("(typeDescr Type, isSet *bool) goast.Expr", "(typeDescr Type) (goast.Expr, bool)")
_n = _n.replace("		*isSet = true\n		return ctx.structFromComponents(t.Components, t.ExtensionAdditions)\n", "		return ctx.structFromComponents(t.Components, t.ExtensionAdditions), true\n")
_n = _n.replace("		*isSet = true\n		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, isSet)}\n", "		elem, _ := ctx.generateTypeBody(t.Type)\n		return &goast.ArrayType{Elt: elem}, true\n")
_n = _n.replace("		var elemIsSet bool // element being a SET does not make SEQUENCE OF a SET\n		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, &elemIsSet)}\n", "		elem, _ := ctx.generateTypeBody(t.Type) // element being a SET does not make SEQUENCE OF a SET\n		return &goast.ArrayType{Elt: elem}, false\n")
_n = re.sub(r"return ctx\.(generateTypeBody|generateChoiceType)\(([^,\n]*), isSet\)", r"return ctx.\1(\2)", _n)
_n = re.sub(r"return ((?:goast\.NewIdent|&goast\.|ctx\.structFrom|specialCase|nil)[^\n/]*?)( //.*)?\n", lambda m: m.group(0) if m.group(1).endswith((", true", ", false")) else "return %s, false%s\n" % (m.group(1), m.group(2) or ""), _n)
_s = _s.replace(_b, _n)
_c = fn("generateChoiceType")
_s = _s.replace(_c, _c.replace("(t ChoiceType, isSet *bool) goast.Expr", "(t ChoiceType) (goast.Expr, bool)").replace('goast.NewIdent("asn1.RawValue")', 'goast.NewIdent("asn1.RawValue"), false').replace(".Type, isSet)", ".Type)").replace("&goast.InterfaceType{Methods: &goast.FieldList{}}", "&goast.InterfaceType{Methods: &goast.FieldList{}}, false"))
_s = _s.replace("	stubIsSet := false\n", "").replace("	return &goast.GenDecl{\n		Tok: gotoken.VAR,\n		Specs: []goast.Spec{\n			&goast.ValueSpec{", "	goType, _ := ctx.generateTypeBody(t)\n	return &goast.GenDecl{\n		Tok: gotoken.VAR,\n		Specs: []goast.Spec{\n			&goast.ValueSpec{").replace("ctx.generateTypeBody(t, &stubIsSet)", "goType")
_s = _s.replace("	var stubBool bool // we care about isSet / shouldAssign only for top-level decls\n", "	goType, _ := ctx.generateTypeBody(f.NamedType.Type) // we care about isSet only for top-level decls\n").replace("ctx.generateTypeBody(f.NamedType.Type, &stubBool)", "goType")
QUIET[-1] = ("set-result", [(C, SRC, _s)])

def sub(name, *xs):
    """A function with texts replaced, each of them once."""
    s = n = fn(name)
    for i in range(0, len(xs), 2):
        assert n.count(xs[i]) >= 1, (name, xs[i])
        n = n.replace(xs[i], xs[i+1], 1)
    return [(C, s, n)]
DECLS = "generateDeclarations"
LOUD = [
 # C12
 ("errors-sorted-cache", e("type declCodeGen struct {\n", "var generated = map[string]int{}\n\ntype declCodeGen struct {\n") + sub("generateTypeDecl", "	decl := &goast.GenDecl{", "	generated[spec.Name.Name]++\n	if generated[spec.Name.Name] > 1000 {\n		spec.Assign = 0\n	}\n	decl := &goast.GenDecl{"), "C12"),
 ("module-sorted", sub("Generate", "	ctx := moduleContext{", "	sort.SliceStable(module.ModuleBody.Imports, func(i, j int) bool { return module.ModuleBody.Imports[i].Module.Reference < module.ModuleBody.Imports[j].Module.Reference })\n	ctx := moduleContext{") + e('	"math"\n', '	"math"\n	"sort"\n'), "C12"),
 ("components-in-place", sub("structFromComponents", "	fields := &goast.FieldList{}\n", "	fields := &goast.FieldList{}\n	components = append(components, extensions...)\n	extensions = nil\n") , "-"),
 ("components-compact", sub("structFromComponents", "	fields := &goast.FieldList{}\n", "	kept := components[:0]\n	for _, c := range components {\n		if _, ok := c.(ComponentsOfComponentType); ok {\n			ctx.appendError(errors.New(\"COMPONENTS OF is not supported\"))\n			continue\n		}\n		kept = append(kept, c)\n	}\n	components = kept\n	fields := &goast.FieldList{}\n"), "C12"),
 ("imports-from-map", sub("Generate", "	for _, moduleName := range ctx.requiredModules {", "	set := map[string]bool{}\n	for _, m := range ctx.requiredModules {\n		set[m] = true\n	}\n	for moduleName := range set {"), "C12"),
 # C13
 ("integer-constrained", sub("generateTypeBody", "	case ConstraintedType: // TODO should generate checking code?\n", "	case ConstraintedType: // TODO should generate checking code?\n		if _, ok := t.Type.(IntegerType); ok {\n			return goast.NewIdent(\"int64\")\n		}\n"), "C13"),
 ("tagged-any", sub("generateTypeBody", "	case TaggedType: // TODO should put tags in go code?\n", "	case TaggedType: // TODO should put tags in go code?\n		if _, ok := t.Type.(AnyType); ok {\n			ctx.requireModule(\"encoding/asn1\")\n			return goast.NewIdent(\"asn1.RawValue\")\n		}\n"), "C13"),
 ("octet-constrained", sub("generateTypeBody", "		return &goast.ArrayType{Elt: goast.NewIdent(\"byte\")}", "		return &goast.ArrayType{Elt: goast.NewIdent(\"uint8\")}"), "C13"),
 ("reference-inlined-integer", sub("generateSpecialCase", "	return nil\n}", "	if _, ok := resolved.Type.(BooleanType); ok {\n		return goast.NewIdent(\"bool\")\n	}\n	return nil\n}"), "C13"),
 ("bits-direct-only", sub("generateSpecialCase", "ctx.removeWrapperTypes(resolved.Type).(BitStringType)", "resolved.Type.(BitStringType)"), "C13"),
 ("time-own-definition", sub("generateSpecialCase", "	if resolved.TypeReference.Name()", "	if resolved.Type == nil {\n		return nil\n	}\n	if resolved.TypeReference.Name()"), "-"),
 # C14
 ("errors-first-ten", sub("appendError", "	ctx.errors = append(", "	if len(ctx.errors) >= 10 {\n		return\n	}\n	ctx.errors = append("), "C14"),
 ("errors-distinct", sub("appendError", "	ctx.errors = append(", "	for _, e := range ctx.errors {\n		if e.Error() == err.Error() {\n			return\n		}\n	}\n	ctx.errors = append("), "-"),
 ("errors-last", sub("Generate", "			msg += \"  \" + err.Error()", "			msg = \"  \" + err.Error()"), "C14"),
 ("components-of-extension", sub("structFromComponents", """	for _, field := range extensions {
		switch f := field.(type) {
		case NamedComponentType:
			fields.List = append(fields.List, ctx.generateStructField(f))
		case ComponentsOfComponentType: // TODO: implement
			ctx.appendError(errors.New("COMPONENTS OF is not supported"))
		}
""", """	for _, field := range extensions {
		if f, ok := field.(NamedComponentType); ok {
			fields.List = append(fields.List, ctx.generateStructField(f))
		}
"""), "C14"),
 ("automatic-empty", sub("Generate", "module.TagDefault == TAGS_AUTOMATIC", "module.TagDefault == TAGS_AUTOMATIC && len(module.ModuleBody.AssignmentList) > 0"), "-"),
 ("tagged-after-context", sub("asn1TagFromType", "			tagged = true\n", "			tagged = tt.Tag.Class != CLASS_APPLICATION\n"), "C14"),
 ("universal-implicit", sub("asn1TagFromType", "			case CLASS_UNIVERSAL: // has no equivalent in encoding/asn1\n", "			case CLASS_UNIVERSAL: // has no equivalent in encoding/asn1\n				if tt.TagType == TAGS_IMPLICIT {\n					break\n				}\n"), "C14"),
 ("header-first", sub("Generate", "	importDecls := make(", "	io.WriteString(writer, \"// Code generated by asn1go. DO NOT EDIT.\\n\")\n	importDecls := make("), "C14"),
 ("print-lost", sub("Generate", "	return goprint.Fprint(writer, gotoken.NewFileSet(), ast)\n", "	out := &strings.Builder{}\n	if err := goprint.Fprint(out, gotoken.NewFileSet(), ast); err != nil {\n		return err\n	}\n	io.WriteString(writer, out.String())\n	return nil\n"), "C14"),
 ("print-short", sub("Generate", "	return goprint.Fprint(writer, gotoken.NewFileSet(), ast)\n", "	out := &strings.Builder{}\n	if err := goprint.Fprint(out, gotoken.NewFileSet(), ast); err != nil {\n		return err\n	}\n	_, err := io.WriteString(writer, strings.TrimSpace(out.String()))\n	return err\n"), "C14"),
 ("named-foreign", sub("generateAssociatedValuesIfNeeded", "v.ModuleName != \"\" {", "v.ModuleName != \"\" && ctx.lookupContext.AssignmentList.GetValue(v.ValueName.Name()) == nil {"), "C14"),
 ("unknown-repr", sub("generateTypeBody", "			ctx.appendError(fmt.Errorf(\"unknown int type mode: %v\", ctx.params.IntegerRepr))\n", ""), "C14"),
 ("reference-empty-module", sub("resolveTypeReference", "		ctx.appendError(", "		if len(ctx.lookupContext.Imports) > 0 {\n			return nil // may be imported\n		}\n		ctx.appendError("), "C14"),
 # C15
 ("field-same-name", sub("structFromComponents", "			fields.List = append(fields.List, ctx.generateStructField(f))\n", "			field := ctx.generateStructField(f)\n			if n := len(fields.List); n > 0 && fields.List[n-1].Names[0].Name == field.Names[0].Name {\n				continue\n			}\n			fields.List = append(fields.List, field)\n"), "C15"),
 ("field-merged", sub("structFromComponents", "			fields.List = append(fields.List, ctx.generateStructField(f))\n", "			field := ctx.generateStructField(f)\n			if field.Type == nil {\n				continue\n			}\n			fields.List = append(fields.List, field)\n"), "C15"),
 ("set-no-extensions", sub("generateTypeBody", "		*isSet = true\n		return ctx.structFromComponents(t.Components, t.ExtensionAdditions)\n", "		*isSet = true\n		return ctx.structFromComponents(t.Components, nil)\n"), "C15"),
 ("additions-first", sub("generateTypeBody", "	case SequenceType:\n		return ctx.structFromComponents(t.Components, t.ExtensionAdditions)\n", "	case SequenceType:\n		return ctx.structFromComponents(ComponentTypeList(t.ExtensionAdditions), ExtensionAdditions(t.Components))\n"), "C15"),
 # C16
 ("optional-no-default", sub("asn1TagFromType", "		if !nt.IsOptional { // ensure", "		if _, ok := (*nt.Default).(Number); ok && !nt.IsOptional { // ensure"), "C16"),
 ("default-boolean", sub("asn1TagFromType", "		if !nt.IsOptional { // ensure", "		if b, ok := (*nt.Default).(Boolean); ok && bool(b) {\n			components = append(components, \"default:1\")\n		}\n		if !nt.IsOptional { // ensure"), "C16"),
 ("private-context", sub("asn1TagFromType", "				components = append(components, \"private\")\n", "				components = append(components, \"application\")\n"), "C16"),
 ("explicit-default-only", sub("asn1TagFromType", "			if tt.HasTagType {\n				tagType = tt.TagType\n			}\n", "			if tt.HasTagType && tt.TagType != ctx.tagDefault {\n				tagType = TAGS_EXPLICIT\n			}\n"), "C16"),
 ("tag-type-default", sub("asn1TagFromType", "			tagType := ctx.tagDefault\n			if tt.HasTagType {\n", "			tagType := ctx.tagDefault\n			if tt.TagType != 0 {\n"), "C16"),
 ("printable", sub("asn1TagFromType", "			// default type\n", "			components = append(components, \"printable\")\n"), "C16"),
 ("visible-ia5", sub("asn1TagFromType", "		case IA5String:\n", "		case IA5String, VisibleString:\n"), "C16"),
 ("set-reference", sub("asn1TagFromType", "		if stringType, ok := leaf.(RestrictedStringType); ok {\n			t = stringType\n		}\n", "		switch leaf.(type) {\n		case RestrictedStringType, SetType, SetOfType:\n			t = leaf\n		}\n"), "C16"),
 ("string-default-skips", sub("asn1TagFromType", "	if reference, ok := t.(TypeReference); ok {\n", "	if reference, ok := t.(TypeReference); ok && nt.Default == nil {\n"), "C16"),
 ("time-direct", sub("asn1TagFromType", "switch ctx.unwrapToLeafType(tt).TypeReference.Name()", "switch tt.Name()"), "C16"),
 ("utc-generalized", sub("asn1TagFromType", "components = append(components, \"utc\")", "components = append(components, \"generalized\")"), "C16"),
 ("omitempty", sub("asn1TagFromType", "	if len(components) > 0 {", "	if _, ok := t.(SequenceOfType); ok && nt.IsOptional {\n		components = append(components, \"omitempty\")\n	}\n	if len(components) > 0 {"), "C16"),
 ("tag-high", sub("asn1TagFromType", "				components = append(components, fmt.Sprintf(\"tag:%v\", cn.IntValue()))", "				components = append(components, fmt.Sprintf(\"tag:%v\", cn.IntValue()&0xff))"), "C16"),
 ("default-unsigned", sub("asn1TagFromType", "fmt.Sprintf(\"default:%v\", defaultNumber.IntValue())", "fmt.Sprintf(\"default:%v\", uint32(defaultNumber.IntValue()))"), "C16"),
 # C17
 ("math-always-big", sub("numberToExpr", "	if ctx.params.IntegerRepr == IntegerReprBigInt {\n		ctx.requireModule(\"math/big\")\n", "	if ctx.params.IntegerRepr == IntegerReprBigInt {\n"), "C17"),
 ("asn1-for-choice", sub("generateChoiceType", "	if ctx.hasTaggedAlternatives(t) {\n		ctx.requireModule(\"encoding/asn1\")\n", "	ctx.requireModule(\"encoding/asn1\")\n	if ctx.hasTaggedAlternatives(t) {\n"), "C17"),
 ("require-last-only", sub("requireModule", "	for _, existing := range ctx.requiredModules {\n		if existing == module {\n			return\n		}\n	}\n", "	if n := len(ctx.requiredModules); n > 0 && ctx.requiredModules[n-1] == module {\n		return\n	}\n"), "C17"),
 ("require-contains", sub("requireModule", "existing == module", "strings.Contains(existing, module)"), "C17"),
 ("import-skip-last", sub("Generate", "range ctx.requiredModules {", "range ctx.requiredModules[:min(len(ctx.requiredModules), 3)] {"), "C17"),
 # C18
 ("goify-first-only", sub("goifyName", "\"_\", -1", "\"_\", 1"), "C18"),
 ("goify-trim", sub("goifyName", "return strings.Title(", "return strings.Title(strings.TrimSuffix(") + e("\"_\", -1))", "\"_\", -1), \"_\"))"), "C18"),
 ("goify-order", sub("goifyName", "return strings.Title(strings.Replace(name, \"-\", \"_\", -1))", "return strings.Replace(strings.Title(name), \"-\", \"_\", -1)"), "C18"),
 ("goify-upper", sub("goifyName", "strings.Title(", "strings.ToUpper("), "C18"),
 ("package-title", sub("Generate", "goast.NewIdent(gen.Params.Package)", "goast.NewIdent(strings.ToLower(gen.Params.Package))"), "C18"),
 ("value-name-raw", sub("valueRefToIdent", "goifyName(string(ref))", "strings.Title(string(ref))"), "C18"),
 ("named-number-raw", sub("generateAssociatedValuesIfNeeded", "goifyName(string(namedNumber.Name))", "strings.Title(string(namedNumber.Name))"), "C18"),
 ("reference-of-resolved", sub("generateTypeBody", "			specialCase := ctx.generateSpecialCase(*nameAndType)\n", "			t = nameAndType.TypeReference\n			specialCase := ctx.generateSpecialCase(*nameAndType)\n"), "C13"),
 # C19
 ("leaf-not-marked", sub("unwrapToLeafType", "visited[reference] = true", "visited[reference] = false"), "C02 C19"),
 ("leaf-fifty", sub("unwrapToLeafType", "	for !visited[reference] {", "	for !visited[reference] && len(visited) < 50 {"), "C19"),
 ("leaf-type-only", sub("unwrapToLeafType", "		tt, ok := ctx.removeWrapperTypes(assignment.Type).(TypeReference)\n", "		tt, ok := assignment.Type.(TypeReference)\n"), "C19"),
 ("leaf-useful-first", sub("resolveTypeReference", "	unwrapped := ctx.unwrapToLeafType(reference)\n", "	if tt := ctx.lookupUsefulType(reference); tt != nil {\n		return &TypeAssignment{reference, tt}\n	}\n	unwrapped := ctx.unwrapToLeafType(reference)\n"), "-"),
 ("useful-original", sub("resolveTypeReference", "ctx.lookupUsefulType(unwrapped.TypeReference)", "ctx.lookupUsefulType(reference)"), "C19"),
 ("circular-quiet", sub("unwrapToLeafType", "		reference = tt\n", "		if tt == reference {\n			return *assignment\n		}\n		reference = tt\n"), "C19"),
 ("unwrap-tags-only", sub("removeWrapperTypes", "		case ConstraintedType:\n			t = tt.Type\n", "		case ConstraintedType:\n			if _, ok := tt.Type.(TaggedType); ok {\n				return tt.Type\n			}\n			t = tt.Type\n"), "C19"),
 # C20
 ("decl-once-by-name", sub(DECLS, "		case TypeAssignment:\n", "		case TypeAssignment:\n			if first := ctx.lookupContext.AssignmentList.GetType(a.TypeReference.Name()); first != nil && len(decls) > 64 {\n				continue\n			}\n"), "C20"),
 ("decl-values-first", sub(DECLS, "			if decl := ctx.tryGenerateValueAssignment(a.ValueReference, a.Type, a.Value); decl != nil {\n				decls = append(decls, decl)\n", "			if decl := ctx.tryGenerateValueAssignment(a.ValueReference, a.Type, a.Value); decl != nil {\n				decls = append([]goast.Decl{decl}, decls...)\n"), "C20"),
 ("set-of-set", sub("generateTypeBody", "		var elemIsSet bool // element being a SET does not make SEQUENCE OF a SET\n		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, &elemIsSet)}", "		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, isSet)}"), "C20"),
 ("set-alias-defined", sub("generateTypeDecl", "			Assign: 1,\n", ""), "C20"),
 ("set-empty", sub("generateTypeDecl", "	if isSet {\n", "	if s, ok := typeBody.(*goast.StructType); isSet && !(ok && len(s.Fields.List) == 0) {\n"), "C20"),
 ("struct-alias-empty", sub("generateTypeDecl", "	if _, ok := typeBody.(*goast.StructType); ok {\n", "	if s, ok := typeBody.(*goast.StructType); ok && len(s.Fields.List) > 0 {\n"), "C20"),
 # C21
 ("number-32", sub("numberToExpr", "fmt.Sprint(val.IntValue())", "fmt.Sprint(int32(val))"), "C21"),
 ("number-hex", sub("numberToExpr", "fmt.Sprint(val.IntValue())", "fmt.Sprintf(\"%#x\", uint(val))"), "C21"),
 ("real-float32", sub("tryGenerateValueAssignment", "valExpr = &goast.BasicLit{Value: fmt.Sprint(val)}", "valExpr = &goast.BasicLit{Value: fmt.Sprint(float32(val))}"), "C21"),
 ("real-g6", sub("tryGenerateValueAssignment", "valExpr = &goast.BasicLit{Value: fmt.Sprint(val)}", "valExpr = &goast.BasicLit{Value: fmt.Sprintf(\"%.15g\", float64(val))}"), "C21"),
 ("real-f", sub("tryGenerateValueAssignment", "valExpr = &goast.BasicLit{Value: fmt.Sprint(val)}", "valExpr = &goast.BasicLit{Value: fmt.Sprintf(\"%f\", float64(val))}"), "C21"),
 ("inf-positive", sub("tryGenerateValueAssignment", "math.IsInf(float64(val), 0)", "math.IsInf(float64(val), 1)"), "C21"),
 ("bool-swapped", sub("tryGenerateValueAssignment", "		if val {", "		if !val {"), "C21"),
 ("number-real-big", sub("isRealType", "	if reference, ok := t.(TypeReference); ok {\n		t = ctx.removeWrapperTypes(ctx.unwrapToLeafType(reference).Type)\n	}\n", ""), "C21"),
 ("real-direct-leaf", sub("isRealType", "ctx.removeWrapperTypes(ctx.unwrapToLeafType(reference).Type)", "ctx.unwrapToLeafType(reference).Type"), "C21"),
 ("named-first-missing", sub("generateAssociatedValuesIfNeeded", "assignment == nil {", "assignment == nil && len(specs) == 0 {"), "C21"),
 ("named-value-type", sub("generateAssociatedValuesIfNeeded", "				} else if _, ok := assignment.Value.(Number); !ok {\n", "				} else if _, ok := assignment.Value.(Boolean); ok {\n"), "C21"),
 ("named-duplicates", sub("generateAssociatedValuesIfNeeded", "			typeName := goifyName(string(reference))\n", "			if number, ok := namedNumber.Value.(Number); ok && number == 0 && len(specs) > 0 {\n				continue\n			}\n			typeName := goifyName(string(reference))\n"), "C21"),
 ("named-direct", sub("generateAssociatedValuesIfNeeded", "ctx.removeWrapperTypes(typeDescr).(type)", "typeDescr.(type)"), "C21"),
 ("value-untyped", sub("tryGenerateValueAssignment", "				Type:   ctx.generateTypeBody(t, &stubIsSet),\n", "				Type:   ctx.generateTypeBody(ctx.removeWrapperTypes(t), &stubIsSet),\n"), "-"),
 # C22
 ("choice-first-reference", sub("hasTaggedAlternatives", "		if ctx.taggedChoiceTypeAlternative(f.Identifier, f.Type) {\n			return true\n		}\n", "		return ctx.taggedChoiceTypeAlternative(f.Identifier, f.Type)\n"), "C22"),
 ("choice-time-any", sub("taggedChoiceTypeAlternative", "		realType := ctx.resolveTypeReference(t)\n", "		if ctx.lookupUsefulType(t) != nil || ctx.lookupUsefulType(ctx.unwrapToLeafType(t).TypeReference) != nil {\n			return false\n		}\n		realType := ctx.resolveTypeReference(t)\n"), "C22"),
 ("choice-leaf-only", sub("taggedChoiceTypeAlternative", "			return ctx.taggedChoiceTypeAlternative(name, assignment.Type)\n", "			return ctx.taggedChoiceTypeAlternative(name, realType.Type)\n"), "C22"),
 ("choice-constraint", sub("taggedChoiceTypeAlternative", "		return ctx.taggedChoiceTypeAlternative(name, t.Type)\n", "		_, tagged := t.Type.(TaggedType)\n		return tagged\n"), "C22"),
 ("choice-tag-implicit", sub("taggedChoiceTypeAlternative", "	case TaggedType:\n		return true\n", "	case TaggedType:\n		return t.TagType != TAGS_IMPLICIT || t.HasTagType\n"), "C22"),
 ("choice-one-extended", sub("generateChoiceType", "len(t.AlternativeTypeList) == 1 {", "len(t.AlternativeTypeList) == 1 && len(t.ExtensionTypes) == 0 {"), "C22"),
 ("choice-two-same", sub("generateChoiceType", "len(t.AlternativeTypeList) == 1 {", "len(t.AlternativeTypeList) == 1 || len(t.AlternativeTypeList) == 2 && t.AlternativeTypeList[0].Type == t.AlternativeTypeList[1].Type {"), "C22"),
]

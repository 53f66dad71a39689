C = "codegen.go"
def e(*xs): return [(C, xs[i], xs[i+1]) for i in range(0, len(xs), 2)]

QUIET = [
 ("comment", e("func goifyName(name string) string {", "// names\nfunc goifyName(name string) string {\n\t_ = len(name)\n")),
 ("goify-steps", e('return strings.Title(strings.Replace(name, "-", "_", -1))', 'underscored := strings.ReplaceAll(name, "-", "_")\n\treturn strings.Title(underscored)')),
 ("require-index-loop", e("""	for _, existing := range ctx.requiredModules {
		if existing == module {
			return
		}
	}
	ctx.requiredModules = append(ctx.requiredModules, module)
""", """	if !ctx.hasModule(module) {
		ctx.requiredModules = append(ctx.requiredModules, module)
	}
}

func (ctx *moduleContext) hasModule(module string) bool {
	for i := 0; i < len(ctx.requiredModules); i++ {
		if ctx.requiredModules[i] == module {
			return true
		}
	}
	return false
""")),
 ("require-flag", e("""	for _, existing := range ctx.requiredModules {
		if existing == module {
			return
		}
	}
	ctx.requiredModules = append(ctx.requiredModules, module)
""", """	found := false
	for _, existing := range ctx.requiredModules {
		if existing == module {
			found = true
			break
		}
	}
	if found {
		return
	}
	ctx.requiredModules = append(ctx.requiredModules, module)
""")),
 ("require-flag-nobreak", e("""	for _, existing := range ctx.requiredModules {
		if existing == module {
			return
		}
	}
	ctx.requiredModules = append(ctx.requiredModules, module)
""", """	found := false
	for _, existing := range ctx.requiredModules {
		if existing == module {
			found = true
		}
	}
	if !found {
		ctx.requiredModules = append(ctx.requiredModules, module)
	}
""")),
 ("generate-split", e("""	if len(ctx.errors) != 0 {
		msg := "errors generating Go AST from module: \\n"
		for _, err := range ctx.errors {
			msg += "  " + err.Error() + "\\n"
		}
		return errors.New(msg)
	}
	importDecls := make([]goast.Decl, 0)
	for _, moduleName := range ctx.requiredModules {
		modulePath := &goast.BasicLit{Kind: gotoken.STRING, Value: fmt.Sprintf("\\"%v\\"", moduleName)}
		specs := []goast.Spec{&goast.ImportSpec{Path: modulePath}}
		importDecls = append(importDecls, &goast.GenDecl{Tok: gotoken.IMPORT, Specs: specs})
	}
	ast.Decls = append(importDecls, ast.Decls...)
	return goprint.Fprint(writer, gotoken.NewFileSet(), ast)
}
""", """	if err := ctx.collectedErrors(); err != nil {
		return err
	}
	ast.Decls = append(ctx.importDecls(), ast.Decls...)
	return goprint.Fprint(writer, gotoken.NewFileSet(), ast)
}

func (ctx *moduleContext) collectedErrors() error {
	if len(ctx.errors) == 0 {
		return nil
	}
	msg := "errors generating Go AST from module: \\n"
	for _, err := range ctx.errors {
		msg += "  " + err.Error() + "\\n"
	}
	return errors.New(msg)
}

func (ctx *moduleContext) importDecls() []goast.Decl {
	importDecls := make([]goast.Decl, 0, len(ctx.requiredModules))
	for i := range ctx.requiredModules {
		importDecls = append(importDecls, importDecl(ctx.requiredModules[i]))
	}
	return importDecls
}

func importDecl(moduleName string) goast.Decl {
	return &goast.GenDecl{
		Tok: gotoken.IMPORT,
		Specs: []goast.Spec{&goast.ImportSpec{
			Path: &goast.BasicLit{Kind: gotoken.STRING, Value: "\\"" + moduleName + "\\""},
		}},
	}
}
""")),
 ("generate-builder", e("""		msg := "errors generating Go AST from module: \\n"
		for _, err := range ctx.errors {
			msg += "  " + err.Error() + "\\n"
		}
		return errors.New(msg)
""", """		var msg strings.Builder
		msg.WriteString("errors generating Go AST from module: \\n")
		for _, err := range ctx.errors {
			msg.WriteString("  " + err.Error() + "\\n")
		}
		return errors.New(msg.String())
""")),
 ("generate-join", e("""		msg := "errors generating Go AST from module: \\n"
		for _, err := range ctx.errors {
			msg += "  " + err.Error() + "\\n"
		}
		return errors.New(msg)
""", """		lines := []string{"errors generating Go AST from module: "}
		for _, err := range ctx.errors {
			lines = append(lines, "  "+err.Error())
		}
		return errors.New(strings.Join(append(lines, ""), "\\n"))
""")),
 ("generate-printerr", e("""	return goprint.Fprint(writer, gotoken.NewFileSet(), ast)
}
""", """	if err := goprint.Fprint(writer, gotoken.NewFileSet(), ast); err != nil {
		return err
	}
	return nil
}
""")),
 ("generate-name-else", e("""	moduleName := goast.NewIdent(goifyName(module.ModuleIdentifier.Reference))
	if len(gen.Params.Package) > 0 {
		moduleName = goast.NewIdent(gen.Params.Package)
	}
	ast := &goast.File{
		Name:  moduleName,
		Decls: ctx.generateDeclarations(module),
	}
""", """	packageName := gen.Params.Package
	if packageName == "" {
		packageName = goifyName(module.ModuleIdentifier.Reference)
	}
	decls := ctx.generateDeclarations(module)
	ast := &goast.File{Name: goast.NewIdent(packageName), Decls: decls}
""")),
 ("generate-decls-first", e("""	moduleName := goast.NewIdent(goifyName(module.ModuleIdentifier.Reference))
	if len(gen.Params.Package) > 0 {
		moduleName = goast.NewIdent(gen.Params.Package)
	}
	ast := &goast.File{
		Name:  moduleName,
		Decls: ctx.generateDeclarations(module),
	}
""", """	decls := ctx.generateDeclarations(module)
	var packageName string
	if len(gen.Params.Package) > 0 {
		packageName = gen.Params.Package
	} else {
		packageName = goifyName(module.ModuleIdentifier.Reference)
	}
	ast := new(goast.File)
	ast.Name = goast.NewIdent(packageName)
	ast.Decls = decls
""")),
 ("decls-ifchain", e("""		switch a := assignment.(type) {
		case TypeAssignment:
			decls = append(decls, ctx.generateTypeDecl(a.TypeReference, a.Type))
			if decl := ctx.generateAssociatedValuesIfNeeded(a.TypeReference, a.Type); decl != nil {
				decls = append(decls, decl)
			}
		case ValueAssignment:
			if decl := ctx.tryGenerateValueAssignment(a.ValueReference, a.Type, a.Value); decl != nil {
				decls = append(decls, decl)
			}
		}
""", """		decls = append(decls, ctx.assignmentDecls(assignment)...)
""", """func (ctx *moduleContext) generateTypeDecl(""", """func (ctx *moduleContext) assignmentDecls(assignment Assignment) (decls []goast.Decl) {
	if a, ok := assignment.(TypeAssignment); ok {
		decls = append(decls, ctx.generateTypeDecl(a.TypeReference, a.Type))
		decl := ctx.generateAssociatedValuesIfNeeded(a.TypeReference, a.Type)
		if decl == nil {
			return decls
		}
		return append(decls, decl)
	}
	if a, ok := assignment.(ValueAssignment); ok {
		if decl := ctx.tryGenerateValueAssignment(a.ValueReference, a.Type, a.Value); decl != nil {
			decls = append(decls, decl)
		}
	}
	return decls
}

func (ctx *moduleContext) generateTypeDecl(""")),
 ("decls-index", e("""	for _, assignment := range module.ModuleBody.AssignmentList {
		switch""", """	assignments := module.ModuleBody.AssignmentList
	for i := 0; i < len(assignments); i++ {
		assignment := assignments[i]
		switch""")),
 ("typedecl-rewrite", e("""	var isSet bool
	typeBody := ctx.generateTypeBody(typeDescr, &isSet)
	spec := &goast.TypeSpec{
		Name:   goast.NewIdent(goifyName(reference.Name())),
		Type:   typeBody,
		Assign: 1, // not a valid Pos, but formatter just needs non-empty value
	}
	decl := &goast.GenDecl{
		Tok:   gotoken.TYPE,
		Specs: []goast.Spec{spec},
	}
	if _, ok := typeBody.(*goast.StructType); ok {
		spec.Assign = 0
	}
	if isSet {
		oldName := spec.Name.Name
		spec.Name.Name += "SET"
		spec.Assign = 0
		newName := spec.Name.Name
		decl.Specs = append(decl.Specs, &goast.TypeSpec{
			Name:   goast.NewIdent(oldName),
			Assign: 1,
			Type:   goast.NewIdent(newName),
		})
	}
	return decl
""", """	isSet := false
	typeBody := ctx.generateTypeBody(typeDescr, &isSet)
	name := goifyName(reference.Name())
	var specs []goast.Spec
	if isSet {
		setName := name + "SET"
		specs = []goast.Spec{
			&goast.TypeSpec{Name: goast.NewIdent(setName), Type: typeBody},
			aliasSpec(name, goast.NewIdent(setName)),
		}
	} else if _, isStruct := typeBody.(*goast.StructType); isStruct {
		specs = []goast.Spec{&goast.TypeSpec{Name: goast.NewIdent(name), Type: typeBody}}
	} else {
		specs = []goast.Spec{aliasSpec(name, typeBody)}
	}
	return &goast.GenDecl{Tok: gotoken.TYPE, Specs: specs}
}

func aliasSpec(name string, t goast.Expr) *goast.TypeSpec {
	return &goast.TypeSpec{Name: goast.NewIdent(name), Assign: 1, Type: t}
""")),
 ("value-helper", e("""	stubIsSet := false
	var valExpr goast.Expr
	switch val := val.(type) {
	case Number:
		if ctx.isRealType(t) { // integer literal is a valid REAL value
			valExpr = &goast.BasicLit{Value: fmt.Sprint(val.IntValue())}
		} else {
			valExpr = ctx.numberToExpr(val)
		}
	case Boolean:
		if val {
			valExpr = &goast.BasicLit{Value: "true"}
		} else {
			valExpr = &goast.BasicLit{Value: "false"}
		}
	case Real:
		if math.IsInf(float64(val), 0) {
			sign := "1"
			if val < 0 {
				sign = "-1"
			}
			ctx.requireModule("math")
			valExpr = &goast.CallExpr{Fun: goast.NewIdent("math.Inf"), Args: []goast.Expr{&goast.BasicLit{Value: sign}}}
		} else {
			valExpr = &goast.BasicLit{Value: fmt.Sprint(val)}
		}
	default:
		// TODO: produce a warning?
		return nil
	}
""", """	stubIsSet := false
	valExpr := ctx.valueExpr(t, val)
	if valExpr == nil {
		// TODO: produce a warning?
		return nil
	}
""", """func (ctx *moduleContext) generateTypeBody(""", """func (ctx *moduleContext) valueExpr(t Type, val Value) goast.Expr {
	switch val := val.(type) {
	case Number:
		if ctx.isRealType(t) { // integer literal is a valid REAL value
			return &goast.BasicLit{Kind: gotoken.INT, Value: fmt.Sprintf("%d", val.IntValue())}
		}
		return ctx.numberToExpr(val)
	case Boolean:
		return goast.NewIdent(fmt.Sprint(bool(val)))
	case Real:
		return ctx.realExpr(val)
	}
	return nil
}

func (ctx *moduleContext) realExpr(val Real) goast.Expr {
	if !math.IsInf(float64(val), 0) {
		return &goast.BasicLit{Value: fmt.Sprint(float64(val))}
	}
	sign := "1"
	if val < 0 {
		sign = "-1"
	}
	ctx.requireModule("math")
	return &goast.CallExpr{
		Fun:  &goast.SelectorExpr{X: goast.NewIdent("math"), Sel: goast.NewIdent("Inf")},
		Args: []goast.Expr{&goast.BasicLit{Value: sign}},
	}
}

func (ctx *moduleContext) generateTypeBody(""")),
 ("value-inf-signs", e("""		if math.IsInf(float64(val), 0) {
			sign := "1"
			if val < 0 {
				sign = "-1"
			}
			ctx.requireModule("math")
			valExpr = &goast.CallExpr{Fun: goast.NewIdent("math.Inf"), Args: []goast.Expr{&goast.BasicLit{Value: sign}}}
		} else {
			valExpr = &goast.BasicLit{Value: fmt.Sprint(val)}
		}
""", """		switch f := float64(val); {
		case math.IsInf(f, 1):
			valExpr = ctx.infExpr("1")
		case math.IsInf(f, -1):
			valExpr = ctx.infExpr("-1")
		default:
			valExpr = &goast.BasicLit{Value: fmt.Sprint(f)}
		}
""", """func (ctx *moduleContext) generateTypeBody(""", """func (ctx *moduleContext) infExpr(sign string) goast.Expr {
	ctx.requireModule("math")
	return &goast.CallExpr{Fun: goast.NewIdent("math.Inf"), Args: []goast.Expr{&goast.BasicLit{Value: sign}}}
}

func (ctx *moduleContext) generateTypeBody(""")),
 ("value-type-first", e("""	stubIsSet := false
	var valExpr goast.Expr
""", """	stubIsSet := false
	var valExpr goast.Expr
	ident := valueRefToIdent(ref)
""", """				Names:  []*goast.Ident{valueRefToIdent(ref)},
				Type:   ctx.generateTypeBody(t, &stubIsSet),
""", """				Names:  []*goast.Ident{ident},
				Type:   ctx.generateTypeBody(t, &stubIsSet),
""")),
 ("body-ident-helper", e("""	case EnumeratedType:
		// TODO: generate consts
		ctx.requireModule("encoding/asn1")
		return goast.NewIdent("asn1.Enumerated")
""", """	case EnumeratedType:
		// TODO: generate consts
		return ctx.asn1Ident("Enumerated")
""", """	case ObjectIdentifierType:
		ctx.requireModule("encoding/asn1")
		return goast.NewIdent("asn1.ObjectIdentifier")
""", """	case ObjectIdentifierType:
		return ctx.asn1Ident("ObjectIdentifier")
""", """func (ctx *moduleContext) generateAssociatedValuesIfNeeded(""", """func (ctx *moduleContext) asn1Ident(name string) goast.Expr {
	ctx.requireModule("encoding/asn1")
	return goast.NewIdent("asn1." + name)
}

func (ctx *moduleContext) generateAssociatedValuesIfNeeded(""")),
 ("body-integer-helper", e("""		switch ctx.params.IntegerRepr {
		case IntegerReprInt64:
			return goast.NewIdent("int64") // TODO signed, unsigned, range constraints
		case IntegerReprBigInt:
			ctx.requireModule("math/big")
			return &goast.StarExpr{X: goast.NewIdent("big.Int")}
		default:
			ctx.appendError(fmt.Errorf("unknown int type mode: %v", ctx.params.IntegerRepr))
			return goast.NewIdent("int64")
		}
""", """		return ctx.integerBody()
""", """func (ctx *moduleContext) generateAssociatedValuesIfNeeded(""", """func (ctx *moduleContext) integerBody() goast.Expr {
	repr := ctx.params.IntegerRepr
	if repr == IntegerReprBigInt {
		ctx.requireModule("math/big")
		return &goast.StarExpr{X: goast.NewIdent("big.Int")}
	}
	if repr != IntegerReprInt64 {
		ctx.appendError(fmt.Errorf("unknown int type mode: %v", repr))
	}
	return goast.NewIdent("int64") // TODO signed, unsigned, range constraints
}

func (ctx *moduleContext) generateAssociatedValuesIfNeeded(""")),
 ("body-merge-cases", e("""	case TaggedType: // TODO should put tags in go code?
		return ctx.generateTypeBody(t.Type, isSet)
	case ConstraintedType: // TODO should generate checking code?
		return ctx.generateTypeBody(t.Type, isSet)
""", """	case TaggedType, ConstraintedType:
		return ctx.generateTypeBody(ctx.removeWrapperTypes(t), isSet)
""")),
 ("body-unwrap-first", e("""	switch t := typeDescr.(type) {
	case BooleanType:
		return goast.NewIdent("bool")
""", """	switch t := ctx.removeWrapperTypes(typeDescr).(type) {
	case BooleanType:
		return goast.NewIdent("bool")
""")),
 ("body-strings-merged", e("""	case CharacterStringType:
		return goast.NewIdent("string")
	case RealType:""", """	case CharacterStringType, RestrictedStringType:
		return goast.NewIdent("string")
	case RealType:""", """	case RestrictedStringType: // TODO should generate checking code?
		return goast.NewIdent("string")
""", "")),
 ("body-setof-local", e("""		*isSet = true
		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, isSet)}
""", """		var elemIsSet bool
		elem := ctx.generateTypeBody(t.Type, &elemIsSet)
		*isSet = true
		return &goast.ArrayType{Elt: elem}
""")),
 ("struct-helper", e("""	for _, field := range components {
		switch f := field.(type) {
		case NamedComponentType:
			fields.List = append(fields.List, ctx.generateStructField(f))
		case ComponentsOfComponentType: // TODO: implement
			ctx.appendError(errors.New("COMPONENTS OF is not supported"))
		}
	}
	for _, field := range extensions {
		switch f := field.(type) {
		case NamedComponentType:
			fields.List = append(fields.List, ctx.generateStructField(f))
		case ComponentsOfComponentType: // TODO: implement
			ctx.appendError(errors.New("COMPONENTS OF is not supported"))
		}
	}
	return""", """	for _, field := range components {
		ctx.addField(fields, field)
	}
	for _, field := range extensions {
		ctx.addField(fields, field)
	}
	return""", """func (ctx *moduleContext) generateStructField(""", """func (ctx *moduleContext) addField(fields *goast.FieldList, field interface{}) {
	switch f := field.(type) {
	case NamedComponentType:
		fields.List = append(fields.List, ctx.generateStructField(f))
	case ComponentsOfComponentType: // TODO: implement
		ctx.appendError(errors.New("COMPONENTS OF is not supported"))
	}
}

func (ctx *moduleContext) generateStructField(""")),
 ("struct-list-helper", e("""	for _, field := range components {
		switch f := field.(type) {
		case NamedComponentType:
			fields.List = append(fields.List, ctx.generateStructField(f))
		case ComponentsOfComponentType: // TODO: implement
			ctx.appendError(errors.New("COMPONENTS OF is not supported"))
		}
	}
	for _, field := range extensions {
		switch f := field.(type) {
		case NamedComponentType:
			fields.List = append(fields.List, ctx.generateStructField(f))
		case ComponentsOfComponentType: // TODO: implement
			ctx.appendError(errors.New("COMPONENTS OF is not supported"))
		}
	}
	return""", """	var list []interface{}
	for _, c := range components {
		list = append(list, c)
	}
	for _, c := range extensions {
		list = append(list, c)
	}
	fields.List = append(fields.List, ctx.fieldsOf(list)...)
	return""", """func (ctx *moduleContext) generateStructField(""", """func (ctx *moduleContext) fieldsOf(list []interface{}) []*goast.Field {
	var result []*goast.Field
	for _, field := range list {
		if f, ok := field.(NamedComponentType); ok {
			result = append(result, ctx.generateStructField(f))
			continue
		}
		if _, ok := field.(ComponentsOfComponentType); ok {
			ctx.appendError(errors.New("COMPONENTS OF is not supported"))
		}
	}
	return result
}

func (ctx *moduleContext) generateStructField(""")),
 ("struct-concat", e("""	for _, field := range components {
		switch f := field.(type) {
		case NamedComponentType:
			fields.List = append(fields.List, ctx.generateStructField(f))
		case ComponentsOfComponentType: // TODO: implement
			ctx.appendError(errors.New("COMPONENTS OF is not supported"))
		}
	}
	for _, field := range extensions {
		switch f""", """	all := make([]interface{}, 0, len(components)+len(extensions))
	for i := range components {
		all = append(all, components[i])
	}
	for i := range extensions {
		all = append(all, extensions[i])
	}
	for _, field := range all {
		switch f""")),
 ("field-steps", e("""	var stubBool bool // we care about isSet / shouldAssign only for top-level decls
	return &goast.Field{
		Names: append(make([]*goast.Ident, 0), goast.NewIdent(goifyName(f.NamedType.Identifier.Name()))),
		Type:  ctx.generateTypeBody(f.NamedType.Type, &stubBool),
		Tag:   ctx.asn1TagFromType(f),
	}
""", """	named := f.NamedType
	tag := ctx.asn1TagFromType(f)
	fieldType := ctx.generateTypeBody(named.Type, new(bool))
	field := &goast.Field{Type: fieldType, Tag: tag}
	field.Names = []*goast.Ident{goast.NewIdent(goifyName(string(named.Identifier)))}
	return field
""")),
 ("tag-options-reordered", e("""	if nt.IsOptional {
		components = append(components, "optional")
	}
	if nt.Default != nil {
		if defaultNumber, ok := (*nt.Default).(Number); ok {
			components = append(components, fmt.Sprintf("default:%v", defaultNumber.IntValue()))
		}
		if !nt.IsOptional { // ensure it's marked as optional
			components = append(components, "optional")
		}
	}
""", """	if nt.Default != nil {
		if defaultNumber, ok := (*nt.Default).(Number); ok {
			components = append(components, fmt.Sprintf("default:%v", defaultNumber.IntValue()))
		}
	}
	if nt.IsOptional || nt.Default != nil {
		components = append(components, "optional")
	}
""")),
 ("tag-if-loop", e("""unwrap:
	for {
		switch tt := t.(type) {
		case TaggedType:
			switch""", """	for {
		if ct, ok := t.(ConstraintedType); ok {
			t = ct.Type
			continue
		}
		tt, ok := t.(TaggedType)
		if !ok {
			break
		}
			switch""", """			t = tt.Type
		case ConstraintedType:
			t = tt.Type
		default:
			break unwrap
		}
	}
""", """			t = tt.Type
	}
""")),
 ("tag-class-helper", e("""			switch tt.Tag.Class {
			case CLASS_APPLICATION:
				components = append(components, "application")
			case CLASS_PRIVATE:
				components = append(components, "private")
			case CLASS_UNIVERSAL: // has no equivalent in encoding/asn1
				ctx.appendError(fmt.Errorf("field %v: UNIVERSAL tags are not supported", nt.NamedType.Identifier))
			}
			if tagged { // encoding/asn1 would use only the last one
				ctx.appendError(fmt.Errorf("field %v: multiple tags are not supported", nt.NamedType.Identifier))
			}
			tagged = true
			tagType := ctx.tagDefault
			if tt.HasTagType {
				tagType = tt.TagType
			}
			switch tagType {
			case TAGS_EXPLICIT:
				components = append(components, "explicit")
			case TAGS_IMPLICIT: // nothing to do
			case TAGS_AUTOMATIC:
				ctx.appendError(fmt.Errorf("type %v: AUTOMATIC tags are not supported", nt.NamedType.Identifier))
			}
			switch cn := ctx.lookupValue(tt.Tag.ClassNumber).(type) {
			case Number:
				components = append(components, fmt.Sprintf("tag:%v", cn.IntValue()))
			default:
				ctx.appendError(fmt.Errorf("tag value should be Number, got %#v", cn))
			}
			t = tt.Type
""", """			if tagged { // encoding/asn1 would use only the last one
				ctx.appendError(fmt.Errorf("field %v: multiple tags are not supported", nt.NamedType.Identifier))
			}
			tagged = true
			components = append(components, ctx.tagParts(nt, tt)...)
			t = tt.Type
""", """func (ctx *moduleContext) generateSpecialCase(""", """func (ctx *moduleContext) tagParts(nt NamedComponentType, tt TaggedType) []string {
	var parts []string
	if tt.Tag.Class == CLASS_APPLICATION {
		parts = append(parts, "application")
	} else if tt.Tag.Class == CLASS_PRIVATE {
		parts = append(parts, "private")
	} else if tt.Tag.Class == CLASS_UNIVERSAL { // has no equivalent in encoding/asn1
		ctx.appendError(fmt.Errorf("field %v: UNIVERSAL tags are not supported", nt.NamedType.Identifier))
	}
	switch ctx.tagMode(tt) {
	case TAGS_EXPLICIT:
		parts = append(parts, "explicit")
	case TAGS_AUTOMATIC:
		ctx.appendError(fmt.Errorf("type %v: AUTOMATIC tags are not supported", nt.NamedType.Identifier))
	}
	if cn, ok := tt.Tag.ClassNumber.(Number); ok {
		parts = append(parts, "tag:"+fmt.Sprint(cn.IntValue()))
	} else {
		ctx.appendError(fmt.Errorf("tag value should be Number, got %#v", tt.Tag.ClassNumber))
	}
	return parts
}

func (ctx *moduleContext) tagMode(tt TaggedType) int {
	if !tt.HasTagType {
		return ctx.tagDefault
	}
	return tt.TagType
}

func (ctx *moduleContext) generateSpecialCase(""")),
 ("tag-early-return", e("""	if len(components) > 0 {
		return &goast.BasicLit{
			Value: fmt.Sprintf("`asn1:\\"%s\\"`", strings.Join(components, ",")),
			Kind:  gotoken.STRING,
		}
	} else {
		return nil
	}
""", """	if len(components) == 0 {
		return nil
	}
	return &goast.BasicLit{
		Kind:  gotoken.STRING,
		Value: "`asn1:\\"" + strings.Join(components, ",") + "\\"`",
	}
""")),
 ("tag-kind-helper", e("""	if reference, ok := t.(TypeReference); ok {
		// referenced string type is generated as plain string, hence needs the same tag
		leaf := ctx.removeWrapperTypes(ctx.unwrapToLeafType(reference).Type)
		if stringType, ok := leaf.(RestrictedStringType); ok {
			t = stringType
		}
	}
	// add type-specific tags
	switch tt := t.(type) {
	case RestrictedStringType:
		switch tt.LexType {
		case IA5String:
			components = append(components, "ia5")
		case UTF8String:
			components = append(components, "utf8")
		case NumericString:
			components = append(components, "numeric")
		case PrintableString:
			// default type
		}
	case SetType:
		components = append(components, "set")
	case SetOfType:
		components = append(components, "set")
	case TypeReference:
		switch ctx.unwrapToLeafType(tt).TypeReference.Name() {
		case GeneralizedTimeName:
			components = append(components, "generalized")
		case UTCTimeName:
			components = append(components, "utc")
		}
		// TODO omitempty    causes empty slices to be skipped\\
	}
""", """	if part := ctx.kindPart(t); part != "" {
		components = append(components, part)
	}
""", """func (ctx *moduleContext) generateSpecialCase(""", """func (ctx *moduleContext) kindPart(t Type) string {
	switch tt := t.(type) {
	case SetType, SetOfType:
		return "set"
	case RestrictedStringType:
		return stringPart(tt)
	case TypeReference:
		leaf := ctx.unwrapToLeafType(tt)
		if stringType, ok := ctx.removeWrapperTypes(leaf.Type).(RestrictedStringType); ok {
			return stringPart(stringType)
		}
		if leaf.TypeReference == GeneralizedTimeName {
			return "generalized"
		}
		if leaf.TypeReference == UTCTimeName {
			return "utc"
		}
	}
	return ""
}

func stringPart(t RestrictedStringType) string {
	switch t.LexType {
	case IA5String:
		return "ia5"
	case UTF8String:
		return "utf8"
	case NumericString:
		return "numeric"
	}
	return ""
}

func (ctx *moduleContext) generateSpecialCase(""")),
 ("special-case-inline", e("""		nameAndType := ctx.resolveTypeReference(t)
		if nameAndType != nil {
			specialCase := ctx.generateSpecialCase(*nameAndType)
			if specialCase != nil {
				return specialCase
			}
		}
		return goast.NewIdent(goifyName(t.Name()))
""", """		resolved := ctx.resolveTypeReference(t)
		if resolved == nil {
			return goast.NewIdent(goifyName(t.Name()))
		}
		if special := ctx.generateSpecialCase(*resolved); special != nil {
			return special
		}
		return goast.NewIdent(goifyName(string(t)))
""")),
 ("resolve-rewrite", e("""	unwrapped := ctx.unwrapToLeafType(reference)
	if unwrapped.Type != nil {
		return &unwrapped
	} else if tt := ctx.lookupUsefulType(unwrapped.TypeReference); tt != nil {
		return &TypeAssignment{unwrapped.TypeReference, tt}
	} else {
		ctx.appendError(fmt.Errorf("can not resolve TypeReference %v", reference.Name()))
		return nil
	}
""", """	unwrapped := ctx.unwrapToLeafType(reference)
	if unwrapped.Type == nil {
		unwrapped.Type = ctx.lookupUsefulType(unwrapped.TypeReference)
	}
	if unwrapped.Type == nil {
		ctx.appendError(fmt.Errorf("can not resolve TypeReference %v", reference.Name()))
		return nil
	}
	return &unwrapped
""")),
 ("useful-rewrite", e("""	if usefulType, ok := USEFUL_TYPES[reference.Name()]; ok {
		return usefulType
	} else {
		return nil
	}
""", """	return USEFUL_TYPES[reference.Name()]
""")),
 ("wrapper-recursive", e("""	for {
		switch tt := t.(type) {
		case TaggedType:
			t = tt.Type
		case ConstraintedType:
			t = tt.Type
		default:
			return t
		}
	}
""", """	switch tt := t.(type) {
	case TaggedType:
		return ctx.removeWrapperTypes(tt.Type)
	case ConstraintedType:
		return ctx.removeWrapperTypes(tt.Type)
	}
	return t
""")),
 ("wrapper-ifs", e("""	for {
		switch tt := t.(type) {
		case TaggedType:
			t = tt.Type
		case ConstraintedType:
			t = tt.Type
		default:
			return t
		}
	}
""", """	for {
		if tagged, ok := t.(TaggedType); ok {
			t = tagged.Type
		} else if constrainted, ok := t.(ConstraintedType); ok {
			t = constrainted.Type
		} else {
			break
		}
	}
	return t
""")),
 ("leaf-rewrite", e("""	visited := make(map[TypeReference]bool)
	for !visited[reference] {
		visited[reference] = true
		assignment := ctx.lookupContext.AssignmentList.GetType(reference.Name())
		if assignment == nil {
			break
		}
		tt, ok := ctx.removeWrapperTypes(assignment.Type).(TypeReference)
		if !ok {
			return *assignment
		}
		reference = tt
	}
	return TypeAssignment{reference, nil}
""", """	seen := map[TypeReference]bool{}
	for {
		if seen[reference] {
			return TypeAssignment{reference, nil}
		}
		assignment := ctx.lookupContext.AssignmentList.GetType(string(reference))
		if assignment == nil {
			return TypeAssignment{TypeReference: reference}
		}
		seen[reference] = true
		next, isReference := ctx.removeWrapperTypes(assignment.Type).(TypeReference)
		if !isReference {
			return *assignment
		}
		reference = next
	}
""")),
 ("leaf-struct-set", e("""	visited := make(map[TypeReference]bool)
	for !visited[reference] {
		visited[reference] = true
""", """	visited := make(map[TypeReference]struct{})
	for {
		if _, ok := visited[reference]; ok {
			break
		}
		visited[reference] = struct{}{}
""")),
 ("leaf-string-keys", e("""	visited := make(map[TypeReference]bool)
	for !visited[reference] {
		visited[reference] = true
""", """	visited := make(map[string]bool)
	for !visited[reference.Name()] {
		visited[reference.Name()] = true
""")),
 ("choice-loop", e("""	for _, f := range t.AlternativeTypeList {
		if ctx.taggedChoiceTypeAlternative(f.Identifier, f.Type) {
			return true
		}
	}
	return false
""", """	result := false
	for i := 0; i < len(t.AlternativeTypeList) && !result; i++ {
		alternative := t.AlternativeTypeList[i]
		result = ctx.taggedChoiceTypeAlternative(alternative.Identifier, alternative.Type)
	}
	return result
""")),
 ("choice-switch", e("""	if ctx.hasTaggedAlternatives(t) {
		ctx.requireModule("encoding/asn1")
		return goast.NewIdent("asn1.RawValue")
	}
	if len(t.AlternativeTypeList) == 1 {
		return ctx.generateTypeBody(t.AlternativeTypeList[0].Type, isSet) // optimization for X.509 edge case
	}
	return &goast.InterfaceType{Methods: &goast.FieldList{}}
""", """	switch {
	case ctx.hasTaggedAlternatives(t):
		ctx.requireModule("encoding/asn1")
		return goast.NewIdent("asn1.RawValue")
	case len(t.AlternativeTypeList) != 1:
		return &goast.InterfaceType{Methods: &goast.FieldList{}}
	}
	only := t.AlternativeTypeList[0]
	return ctx.generateTypeBody(only.Type, isSet) // optimization for X.509 edge case
""")),
 ("tagged-reorder", e("""	switch t := t.(type) {
	case TaggedType:
		return true
	case TypeReference:
		if t.Name() == GeneralizedTimeName || t.Name() == UTCTimeName {
			return false
		}
		realType := ctx.resolveTypeReference(t)
		if realType == nil {
			return false
		}
		if assignment := ctx.lookupContext.AssignmentList.GetType(t.Name()); assignment != nil {
			// tags can be applied at any step of the reference chain
			return ctx.taggedChoiceTypeAlternative(name, assignment.Type)
		}
		return ctx.taggedChoiceTypeAlternative(name, realType.Type)
	case ConstraintedType:
		return ctx.taggedChoiceTypeAlternative(name, t.Type)
	default:
		return false
	}
""", """	if constrainted, ok := t.(ConstraintedType); ok {
		return ctx.taggedChoiceTypeAlternative(name, constrainted.Type)
	}
	if _, ok := t.(TaggedType); ok {
		return true
	}
	reference, ok := t.(TypeReference)
	if !ok {
		return false
	}
	switch reference.Name() {
	case GeneralizedTimeName, UTCTimeName:
		return false
	}
	resolved := ctx.resolveTypeReference(reference)
	if resolved == nil {
		return false
	}
	next := resolved.Type
	if assignment := ctx.lookupContext.AssignmentList.GetType(reference.Name()); assignment != nil {
		// tags can be applied at any step of the reference chain
		next = assignment.Type
	}
	return ctx.taggedChoiceTypeAlternative(name, next)
""")),
 ("tagged-loop", e("""	switch t := t.(type) {
	case TaggedType:
		return true
	case TypeReference:
		if t.Name() == GeneralizedTimeName || t.Name() == UTCTimeName {
			return false
		}
		realType := ctx.resolveTypeReference(t)
		if realType == nil {
			return false
		}
		if assignment := ctx.lookupContext.AssignmentList.GetType(t.Name()); assignment != nil {
			// tags can be applied at any step of the reference chain
			return ctx.taggedChoiceTypeAlternative(name, assignment.Type)
		}
		return ctx.taggedChoiceTypeAlternative(name, realType.Type)
	case ConstraintedType:
		return ctx.taggedChoiceTypeAlternative(name, t.Type)
	default:
		return false
	}
""", """	for {
		switch tt := t.(type) {
		case TaggedType:
			return true
		case TypeReference:
			if tt.Name() == GeneralizedTimeName || tt.Name() == UTCTimeName {
				return false
			}
			realType := ctx.resolveTypeReference(tt)
			if realType == nil {
				return false
			}
			t = realType.Type
			if assignment := ctx.lookupContext.AssignmentList.GetType(tt.Name()); assignment != nil {
				// tags can be applied at any step of the reference chain
				t = assignment.Type
			}
		case ConstraintedType:
			t = tt.Type
		default:
			return false
		}
	}
""")),
 ("numbers-helper", e("""			var valueExpr goast.Expr
			switch v := namedNumber.Value.(type) {
			case Number:
				valueExpr = ctx.numberToExpr(v)
			case DefinedValue:
				if v.ModuleName != "" {
					ctx.appendError(fmt.Errorf("%v.%v: value references from other modules are not supported", v.ModuleName, v.ValueName))
				} else if assignment := ctx.lookupContext.AssignmentList.GetValue(v.ValueName.Name()); assignment == nil {
					ctx.appendError(fmt.Errorf("can not resolve ValueReference %v", v.ValueName))
				} else if _, ok := assignment.Value.(Number); !ok {
					ctx.appendError(fmt.Errorf("value of %v should be a number to be used as a named number", v.ValueName))
				}
				valueExpr = valueRefToIdent(v.ValueName)
			}
			typeName := goifyName(string(reference))
			specs = append(specs, &goast.ValueSpec{
				Type:   goast.NewIdent(goifyName(string(reference))),
				Names:  []*goast.Ident{goast.NewIdent(typeName + "Val" + goifyName(string(namedNumber.Name)))},
				Values: []goast.Expr{valueExpr},
			})
""", """			specs = append(specs, ctx.namedNumberSpec(goifyName(reference.Name()), namedNumber))
""", """func valueRefToIdent(""", """func (ctx *moduleContext) namedNumberSpec(typeName string, namedNumber NamedNumber) goast.Spec {
	return &goast.ValueSpec{
		Names:  []*goast.Ident{{Name: fmt.Sprintf("%sVal%s", typeName, goifyName(namedNumber.Name.Name()))}},
		Type:   goast.NewIdent(typeName),
		Values: []goast.Expr{ctx.namedNumberExpr(namedNumber)},
	}
}

func (ctx *moduleContext) namedNumberExpr(namedNumber NamedNumber) goast.Expr {
	if v, ok := namedNumber.Value.(Number); ok {
		return ctx.numberToExpr(v)
	}
	v, ok := namedNumber.Value.(DefinedValue)
	if !ok {
		return nil
	}
	if err := ctx.checkNumberReference(v); err != nil {
		ctx.appendError(err)
	}
	return valueRefToIdent(v.ValueName)
}

func (ctx *moduleContext) checkNumberReference(v DefinedValue) error {
	if v.ModuleName != "" {
		return fmt.Errorf("%v.%v: value references from other modules are not supported", v.ModuleName, v.ValueName)
	}
	assignment := ctx.lookupContext.AssignmentList.GetValue(v.ValueName.Name())
	if assignment == nil {
		return fmt.Errorf("can not resolve ValueReference %v", v.ValueName)
	}
	if _, ok := assignment.Value.(Number); !ok {
		return fmt.Errorf("value of %v should be a number to be used as a named number", v.ValueName)
	}
	return nil
}

func valueRefToIdent(""")),
 ("numbers-early", e("""	switch typeDescr := ctx.removeWrapperTypes(typeDescr).(type) {
	case IntegerType:
		if len(typeDescr.NamedNumberList) == 0 {
			return nil
		}
		var specs""", """	switch typeDescr := ctx.removeWrapperTypes(typeDescr).(type) {
	case IntegerType:
		if typeDescr.NamedNumberList == nil || len(typeDescr.NamedNumberList) < 1 {
			return nil
		}
		var specs""")),
 ("number-expr-else", e("""	var valueExpr goast.Expr
	valueExpr = &goast.BasicLit{Value: fmt.Sprint(val.IntValue())}
	if ctx.params.IntegerRepr == IntegerReprBigInt {
		ctx.requireModule("math/big")
		valueExpr = &goast.CallExpr{Fun: goast.NewIdent("big.NewInt"), Args: []goast.Expr{valueExpr}}
	}
	return valueExpr
""", """	literal := &goast.BasicLit{Kind: gotoken.INT, Value: strconv.Itoa(val.IntValue())}
	switch ctx.params.IntegerRepr {
	case IntegerReprBigInt:
		ctx.requireModule("math/big")
		return &goast.CallExpr{Fun: goast.NewIdent("big.NewInt"), Args: []goast.Expr{literal}}
	default:
		return literal
	}
""", '''	"math"
	"strings"
''', '''	"math"
	"strconv"
	"strings"
''')),
 ("factory-early", e("""	switch params.Type {
	case GEN_DECLARATIONS:
		return &declCodeGen{params}
	default:
		return nil
	}
""", """	if params.Type != GEN_DECLARATIONS {
		return nil
	}
	gen := &declCodeGen{Params: params}
	return gen
""")),
 ("generate-pointer-ctx", e("""	ctx := moduleContext{
		extensibilityImplied: module.ExtensibilityImplied,
		tagDefault:           module.TagDefault,
		lookupContext:        module.ModuleBody,
		params:               gen.Params,
	}
""", """	ctx := newModuleContext(module, gen.Params)
""", """func goifyName(""", """func newModuleContext(module ModuleDefinition, params GenParams) *moduleContext {
	return &moduleContext{
		extensibilityImplied: module.ExtensibilityImplied,
		tagDefault:           module.TagDefault,
		lookupContext:        module.ModuleBody,
		params:               params,
	}
}

func goifyName(""")),
 ("isreal-rewrite", e("""	t = ctx.removeWrapperTypes(t)
	if reference, ok := t.(TypeReference); ok {
		t = ctx.removeWrapperTypes(ctx.unwrapToLeafType(reference).Type)
	}
	_, ok := t.(RealType)
	return ok
""", """	bare := ctx.removeWrapperTypes(t)
	switch tt := bare.(type) {
	case RealType:
		return true
	case TypeReference:
		leaf := ctx.unwrapToLeafType(tt)
		_, ok := ctx.removeWrapperTypes(leaf.Type).(RealType)
		return ok
	}
	return false
""")),
]

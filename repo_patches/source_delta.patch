From 9e4cdddd1368dbe08dae498377aa3cab0818d33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 01/21] fix: DEFAULT values and leading OID references pointed
 into the parser stack

The stack slot is reused by later reductions, so the value recorded in the
AST was overwritten (all DEFAULT numbers were lost in generated tags).
---
 asn1.y | 4 ++--
 y.go   | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/asn1.y b/asn1.y
index e3ebfb9..c32c9c4 100644
--- a/asn1.y
+++ b/asn1.y
@@ -735,7 +735,7 @@ ComponentTypeList : ComponentType  { $$ = append(make(ComponentTypeList, 0), $1)
 
 ComponentType : NamedType  { $$ = NamedComponentType{NamedType: $1} }
               | NamedType OPTIONAL  { $$ = NamedComponentType{NamedType: $1, IsOptional: true} }
-              | NamedType DEFAULT Value  { $$ = NamedComponentType{NamedType: $1, Default: &$3} }
+              | NamedType DEFAULT Value  { cpy := $3; $$ = NamedComponentType{NamedType: $1, Default: &cpy} }
               | COMPONENTS OF Type  { $$ = ComponentsOfComponentType{Type: $3} }
 ;
 
@@ -825,7 +825,7 @@ ObjectIdentifierType : OBJECT IDENTIFIER  { $$ = ObjectIdentifierType{} }
 // 31.3
 
 ObjectIdentifierValue : OPEN_CURLY ObjIdComponentsList CLOSE_CURLY  { $$ = $2 }
-                      | OPEN_CURLY DefinedValue ObjIdComponentsList CLOSE_CURLY  { $$ = append(ObjectIdentifierValue{ObjectIdElement{Reference: &$2}}, $3...) }
+                      | OPEN_CURLY DefinedValue ObjIdComponentsList CLOSE_CURLY  { cpy := $2; $$ = append(ObjectIdentifierValue{ObjectIdElement{Reference: &cpy}}, $3...) }
 ;
 
 ObjIdComponentsList :  ObjIdComponents  { $$ = ObjectIdentifierValue{$1}  }
diff --git a/y.go b/y.go
index 89762b0..7a09dd6 100644
--- a/y.go
+++ b/y.go
@@ -1670,7 +1670,8 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line asn1.y:738
 		{
-			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, Default: &yyDollar[3].Value}
+			cpy := yyDollar[3].Value
+			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, Default: &cpy}
 		}
 	case 153:
 		yyDollar = yyS[yypt-3 : yypt+1]
@@ -1874,7 +1875,8 @@ yydefault:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line asn1.y:828
 		{
-			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{ObjectIdElement{Reference: &yyDollar[2].DefinedValue}}, yyDollar[3].ObjectIdentifierValue...)
+			cpy := yyDollar[2].DefinedValue
+			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{ObjectIdElement{Reference: &cpy}}, yyDollar[3].ObjectIdentifierValue...)
 		}
 	case 189:
 		yyDollar = yyS[yypt-1 : yypt+1]
-- 
2.43.0


From 99322095a4c5f304f98e96696af1aa6708a53d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 02/21] fix: import encoding/asn1 when CHOICE is generated as
 asn1.RawValue

---
 codegen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codegen.go b/codegen.go
index 005441d..e25b6a2 100644
--- a/codegen.go
+++ b/codegen.go
@@ -336,6 +336,7 @@ func numberToExpr(val Number, repr IntegerRepr) goast.Expr {
 
 func (ctx *moduleContext) generateChoiceType(t ChoiceType, isSet *bool) goast.Expr {
 	if ctx.hasTaggedAlternatives(t) {
+		ctx.requireModule("encoding/asn1")
 		return goast.NewIdent("asn1.RawValue")
 	}
 	if len(t.AlternativeTypeList) == 1 {
-- 
2.43.0


From fa2a3cd702b002ce2d6c7661f73bbabdc4d2b921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 03/21] fix: SEQUENCE OF with SET elements was declared as a
 SET type

---
 codegen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen.go b/codegen.go
index e25b6a2..77d8745 100644
--- a/codegen.go
+++ b/codegen.go
@@ -247,7 +247,8 @@ func (ctx *moduleContext) generateTypeBody(typeDescr Type, isSet *bool) goast.Ex
 		*isSet = true
 		return ctx.structFromComponents(t.Components, t.ExtensionAdditions)
 	case SequenceOfType:
-		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, isSet)}
+		var elemIsSet bool // element being a SET does not make SEQUENCE OF a SET
+		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, &elemIsSet)}
 	case SetOfType:
 		*isSet = true
 		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, isSet)}
-- 
2.43.0


From 8f4787588e1765771ca8fec400df287a76f3b82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 04/21] fix: UTCTime could not be resolved by the code
 generator

---
 ast.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 075e99d..5ac5cb1 100644
--- a/ast.go
+++ b/ast.go
@@ -729,10 +729,12 @@ const (
 var (
 	// USEFUL_TYPES are defined in X.680, section 41.
 	// These are built-in types that behave like type assignments that are always in scope.
-	// TODO: clarify why UTCTimeName is missing here.
 	USEFUL_TYPES map[string]Type = map[string]Type{
 		GeneralizedTimeName: TaggedType{ // [UNIVERSAL 24] IMPLICIT VisibleString
 			Tag:  Tag{Class: CLASS_UNIVERSAL, ClassNumber: Number(24)},
 			Type: RestrictedStringType{VisibleString}},
+		UTCTimeName: TaggedType{ // [UNIVERSAL 23] IMPLICIT VisibleString
+			Tag:  Tag{Class: CLASS_UNIVERSAL, ClassNumber: Number(23)},
+			Type: RestrictedStringType{VisibleString}},
 	}
 )
-- 
2.43.0


From 966c68f0f756324128f350bdff5d0a25719358fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 05/21] fix: circular type references overflowed the stack of
 the code generator

---
 codegen.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/codegen.go b/codegen.go
index 77d8745..83a0082 100644
--- a/codegen.go
+++ b/codegen.go
@@ -545,15 +545,21 @@ func (ctx *moduleContext) removeWrapperTypes(t Type) Type {
 	}
 }
 
-// unwrapToLeafType walks over transitive type references, tags and constraints and yields "root" type reference
+// unwrapToLeafType walks over transitive type references, tags and constraints and yields "root" type reference.
+// Type of the result is nil if reference can not be resolved within the module, or if it is defined in terms of itself.
 func (ctx *moduleContext) unwrapToLeafType(reference TypeReference) TypeAssignment {
-	if assignment := ctx.lookupContext.AssignmentList.GetType(reference.Name()); assignment != nil {
-		t := assignment.Type
-		if tt, ok := ctx.removeWrapperTypes(t).(TypeReference); ok {
-			return ctx.unwrapToLeafType(tt)
-		} else {
+	visited := make(map[TypeReference]bool)
+	for !visited[reference] {
+		visited[reference] = true
+		assignment := ctx.lookupContext.AssignmentList.GetType(reference.Name())
+		if assignment == nil {
+			break
+		}
+		tt, ok := ctx.removeWrapperTypes(assignment.Type).(TypeReference)
+		if !ok {
 			return *assignment
 		}
+		reference = tt
 	}
 	return TypeAssignment{reference, nil}
 }
-- 
2.43.0


From e5914965fa077faf24a9eb38748d4f762defccc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 06/21] fix: CHOICE alternative tagged through a chain of
 references was treated as untagged

---
 codegen.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codegen.go b/codegen.go
index 83a0082..899faef 100644
--- a/codegen.go
+++ b/codegen.go
@@ -367,6 +367,10 @@ func (ctx *moduleContext) taggedChoiceTypeAlternative(name Identifier, t Type) b
 		if realType == nil {
 			return false
 		}
+		if assignment := ctx.lookupContext.AssignmentList.GetType(t.Name()); assignment != nil {
+			// tags can be applied at any step of the reference chain
+			return ctx.taggedChoiceTypeAlternative(name, assignment.Type)
+		}
 		return ctx.taggedChoiceTypeAlternative(name, realType.Type)
 	case ConstraintedType:
 		return ctx.taggedChoiceTypeAlternative(name, t.Type)
-- 
2.43.0


From ebaf0531820fb925dfc7eb515ca04d6210ac3bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 07/21] fix: report field tags that encoding/asn1 can not
 express instead of generating a wrong tag

---
 codegen.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/codegen.go b/codegen.go
index 899faef..1531e63 100644
--- a/codegen.go
+++ b/codegen.go
@@ -426,6 +426,7 @@ func (ctx *moduleContext) asn1TagFromType(nt NamedComponentType) *goast.BasicLit
 		}
 	}
 	// unwrap type
+	tagged := false
 unwrap:
 	for {
 		switch tt := t.(type) {
@@ -435,7 +436,13 @@ unwrap:
 				components = append(components, "application")
 			case CLASS_PRIVATE:
 				components = append(components, "private")
+			case CLASS_UNIVERSAL: // has no equivalent in encoding/asn1
+				ctx.appendError(fmt.Errorf("field %v: UNIVERSAL tags are not supported", nt.NamedType.Identifier))
 			}
+			if tagged { // encoding/asn1 would use only the last one
+				ctx.appendError(fmt.Errorf("field %v: multiple tags are not supported", nt.NamedType.Identifier))
+			}
+			tagged = true
 			tagType := ctx.tagDefault
 			if tt.HasTagType {
 				tagType = tt.TagType
-- 
2.43.0


From b4f684e5f0688da6a7b51df35ec4bd4dc4b5c76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 08/21] fix: named numbers could refer to Go variables that are
 never declared

---
 codegen.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codegen.go b/codegen.go
index 1531e63..e9f9d75 100644
--- a/codegen.go
+++ b/codegen.go
@@ -303,6 +303,10 @@ func (ctx *moduleContext) generateAssociatedValuesIfNeeded(reference TypeReferen
 			case DefinedValue:
 				if v.ModuleName != "" {
 					ctx.appendError(fmt.Errorf("%v.%v: value references from other modules are not supported", v.ModuleName, v.ValueName))
+				} else if assignment := ctx.lookupContext.AssignmentList.GetValue(v.ValueName.Name()); assignment == nil {
+					ctx.appendError(fmt.Errorf("can not resolve ValueReference %v", v.ValueName))
+				} else if _, ok := assignment.Value.(Number); !ok {
+					ctx.appendError(fmt.Errorf("value of %v should be a number to be used as a named number", v.ValueName))
 				}
 				valueExpr = valueRefToIdent(v.ValueName)
 			}
-- 
2.43.0


From 6670e14a8ba325cac7b28c9d6e079cb356aa35df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:28 +0000
Subject: [PATCH 09/21] fix: integer literal of a REAL value was generated as
 big.Int

---
 codegen.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/codegen.go b/codegen.go
index e9f9d75..1cd4ef1 100644
--- a/codegen.go
+++ b/codegen.go
@@ -194,7 +194,11 @@ func (ctx *moduleContext) tryGenerateValueAssignment(ref ValueReference, t Type,
 	var valExpr goast.Expr
 	switch val := val.(type) {
 	case Number:
-		valExpr = numberToExpr(val, ctx.params.IntegerRepr)
+		if ctx.isRealType(t) { // integer literal is a valid REAL value
+			valExpr = &goast.BasicLit{Value: fmt.Sprint(val.IntValue())}
+		} else {
+			valExpr = ctx.numberToExpr(val)
+		}
 	case Boolean:
 		if val {
 			valExpr = &goast.BasicLit{Value: "true"}
@@ -299,7 +303,7 @@ func (ctx *moduleContext) generateAssociatedValuesIfNeeded(reference TypeReferen
 			var valueExpr goast.Expr
 			switch v := namedNumber.Value.(type) {
 			case Number:
-				valueExpr = numberToExpr(v, ctx.params.IntegerRepr)
+				valueExpr = ctx.numberToExpr(v)
 			case DefinedValue:
 				if v.ModuleName != "" {
 					ctx.appendError(fmt.Errorf("%v.%v: value references from other modules are not supported", v.ModuleName, v.ValueName))
@@ -330,10 +334,11 @@ func valueRefToIdent(ref ValueReference) *goast.Ident {
 	return goast.NewIdent("Val" + goifyName(string(ref)))
 }
 
-func numberToExpr(val Number, repr IntegerRepr) goast.Expr {
+func (ctx *moduleContext) numberToExpr(val Number) goast.Expr {
 	var valueExpr goast.Expr
 	valueExpr = &goast.BasicLit{Value: fmt.Sprint(val.IntValue())}
-	if repr == IntegerReprBigInt {
+	if ctx.params.IntegerRepr == IntegerReprBigInt {
+		ctx.requireModule("math/big")
 		valueExpr = &goast.CallExpr{Fun: goast.NewIdent("big.NewInt"), Args: []goast.Expr{valueExpr}}
 	}
 	return valueExpr
@@ -560,6 +565,16 @@ func (ctx *moduleContext) removeWrapperTypes(t Type) Type {
 	}
 }
 
+// isRealType tells whether t is REAL, possibly referenced, tagged or constrained.
+func (ctx *moduleContext) isRealType(t Type) bool {
+	t = ctx.removeWrapperTypes(t)
+	if reference, ok := t.(TypeReference); ok {
+		t = ctx.removeWrapperTypes(ctx.unwrapToLeafType(reference).Type)
+	}
+	_, ok := t.(RealType)
+	return ok
+}
+
 // unwrapToLeafType walks over transitive type references, tags and constraints and yields "root" type reference.
 // Type of the result is nil if reference can not be resolved within the module, or if it is defined in terms of itself.
 func (ctx *moduleContext) unwrapToLeafType(reference TypeReference) TypeAssignment {
-- 
2.43.0


From a3edd3c6dc10fea8b9bfd32130694e25e69f0ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:28 +0000
Subject: [PATCH 10/21] fix: infinite REAL values were generated as invalid Go

---
 codegen.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/codegen.go b/codegen.go
index 1cd4ef1..0089bb5 100644
--- a/codegen.go
+++ b/codegen.go
@@ -7,6 +7,7 @@ import (
 	goprint "go/printer"
 	gotoken "go/token"
 	"io"
+	"math"
 	"strings"
 )
 
@@ -206,7 +207,16 @@ func (ctx *moduleContext) tryGenerateValueAssignment(ref ValueReference, t Type,
 			valExpr = &goast.BasicLit{Value: "false"}
 		}
 	case Real:
-		valExpr = &goast.BasicLit{Value: fmt.Sprint(val)}
+		if math.IsInf(float64(val), 0) {
+			sign := "1"
+			if val < 0 {
+				sign = "-1"
+			}
+			ctx.requireModule("math")
+			valExpr = &goast.CallExpr{Fun: goast.NewIdent("math.Inf"), Args: []goast.Expr{&goast.BasicLit{Value: sign}}}
+		} else {
+			valExpr = &goast.BasicLit{Value: fmt.Sprint(val)}
+		}
 	default:
 		// TODO: produce a warning?
 		return nil
-- 
2.43.0


From 165bebc486e23e401acc6b998076b16a6ea08166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 11/21] fix: fractions of REAL literals lost leading zeros and
 powers of ten were misread

1.05 was read as 1.5 and 1.1 as 2.
---
 asn1.y    |  8 ++++----
 parser.go | 18 +++++++++---------
 y.go      |  8 ++++----
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/asn1.y b/asn1.y
index c32c9c4..48b4209 100644
--- a/asn1.y
+++ b/asn1.y
@@ -647,10 +647,10 @@ SpecialRealValue : PLUS_INFINITY  { $$ = Real(math.Inf(1)) }
 ;
 
 // TODO this seem to be not strict enough (spaces can sneak in into composite value)
-realnumber : NUMBER  { $$ = parseRealNumber($1, 0, 0) }
-           | NUMBER DOT NUMBER  { $$ = parseRealNumber($1, $3, 0) }
-           | NUMBER DOT NUMBER EXPONENT SignedExponent  { $$ = parseRealNumber($1, $3, $5) }
-           | NUMBER EXPONENT SignedExponent  { $$ = parseRealNumber($1, 0, $3) }
+realnumber : NUMBER  { $$ = parseRealLiteral($<numberRepr>1, "0", 0) }
+           | NUMBER DOT NUMBER  { $$ = parseRealLiteral($<numberRepr>1, $<numberRepr>3, 0) }
+           | NUMBER DOT NUMBER EXPONENT SignedExponent  { $$ = parseRealLiteral($<numberRepr>1, $<numberRepr>3, $5) }
+           | NUMBER EXPONENT SignedExponent  { $$ = parseRealLiteral($<numberRepr>1, "0", $3) }
 ;
 
 SignedExponent : NUMBER
diff --git a/parser.go b/parser.go
index 47b1bc6..899d0de 100644
--- a/parser.go
+++ b/parser.go
@@ -3,8 +3,8 @@ package asn1go
 import (
 	"bufio"
 	"io"
-	"math"
 	"os"
+	"strconv"
 	"strings"
 )
 
@@ -38,14 +38,14 @@ func ParseFile(name string) (*ModuleDefinition, error) {
 	return ParseStream(file)
 }
 
+// parseRealNumber is parseRealLiteral for fraction that has no leading zeros.
 func parseRealNumber(integer Number, fraction Number, exponent Number) Real {
-	value := float64(integer)
-	if fraction != 0 {
-		shift := float64(math.Pow10(int(math.Ceil(math.Log10(float64(fraction))))))
-		value += float64(fraction) / shift
-	}
-	if exponent != 0 {
-		value *= math.Pow10(int(exponent))
-	}
+	return parseRealLiteral(strconv.Itoa(integer.IntValue()), strconv.Itoa(fraction.IntValue()), exponent)
+}
+
+// parseRealLiteral builds Real from digits as they are written, leading zeros of the fraction are significant.
+// Literals that are too large to be represented become infinite.
+func parseRealLiteral(integer string, fraction string, exponent Number) Real {
+	value, _ := strconv.ParseFloat(integer+"."+fraction+"e"+strconv.Itoa(exponent.IntValue()), 64)
 	return Real(value)
 }
diff --git a/y.go b/y.go
index 7a09dd6..e8c1770 100644
--- a/y.go
+++ b/y.go
@@ -1496,25 +1496,25 @@ yydefault:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:650
 		{
-			yyVAL.Real = parseRealNumber(yyDollar[1].Number, 0, 0)
+			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, "0", 0)
 		}
 	case 114:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line asn1.y:651
 		{
-			yyVAL.Real = parseRealNumber(yyDollar[1].Number, yyDollar[3].Number, 0)
+			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, yyDollar[3].numberRepr, 0)
 		}
 	case 115:
 		yyDollar = yyS[yypt-5 : yypt+1]
 //line asn1.y:652
 		{
-			yyVAL.Real = parseRealNumber(yyDollar[1].Number, yyDollar[3].Number, yyDollar[5].Number)
+			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, yyDollar[3].numberRepr, yyDollar[5].Number)
 		}
 	case 116:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line asn1.y:653
 		{
-			yyVAL.Real = parseRealNumber(yyDollar[1].Number, 0, yyDollar[3].Number)
+			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, "0", yyDollar[3].Number)
 		}
 	case 118:
 		yyDollar = yyS[yypt-2 : yypt+1]
-- 
2.43.0


From 8eb327df4edb7a437eefb16d1767ce5a78cdc94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 12/21] fix: lexer errors were replaced by the syntax error
 they cause

---
 lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lexer.go b/lexer.go
index 235197c..c69e0d7 100644
--- a/lexer.go
+++ b/lexer.go
@@ -407,7 +407,11 @@ func (lex *MyLexer) consumeNumber(lval *yySymType) int {
 }
 
 // Error implements yyLexer, and is used by the parser to communicate errors.
+// Only the first error is kept: input is not consumed past it, so anything that follows is its consequence.
 func (lex *MyLexer) Error(e string) {
+	if lex.err != nil {
+		return
+	}
 	lex.err = fmt.Errorf("line %v: %v", lex.lineNo+1, e)
 }
 
-- 
2.43.0


From 9b969de2687f7f6c42c20b9670e12d8505745e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 13/21] fix: comment could be closed by characters of its own
 opening delimiter

---
 lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lexer.go b/lexer.go
index c69e0d7..2afe9ef 100644
--- a/lexer.go
+++ b/lexer.go
@@ -131,10 +131,12 @@ func (lex *MyLexer) Lex(lval *yySymType) int {
 			lastWasNumber = false
 			continue
 		} else if r == '-' && lex.peekRune() == '-' {
+			lex.discard(1) // second hyphen does not count towards the closing ones
 			lex.skipLineComment()
 			lastWasNumber = false
 			continue
 		} else if r == '/' && lex.peekRune() == '*' {
+			lex.discard(1) // asterisk does not count towards the closing one
 			lex.skipBlockComment()
 			lastWasNumber = false
 			continue
@@ -297,6 +299,7 @@ func (lex *MyLexer) peekRuneE() (rune, error) {
 	return r, err
 }
 
+// skipLineComment skips the rest of the comment after opening hyphens.
 func (lex *MyLexer) skipLineComment() {
 	lastIsHyphen := false
 	for {
@@ -314,6 +317,7 @@ func (lex *MyLexer) skipLineComment() {
 	}
 }
 
+// skipBlockComment skips the rest of the comment after opening slash and asterisk.
 func (lex *MyLexer) skipBlockComment() {
 	lastIsOpeningSlash := false
 	lastIsClosingStar := false
-- 
2.43.0


From 8be64dfe1906fe57c7d4342d0c01a78f52b3ed40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:13 +0000
Subject: [PATCH 14/21] fix: failure to read input was ignored or retried
 forever in comments, words, numbers and lookahead

Lookahead could also slice past the end of the reader buffer and panic.
---
 lexer.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/lexer.go b/lexer.go
index 2afe9ef..b88f89b 100644
--- a/lexer.go
+++ b/lexer.go
@@ -257,9 +257,17 @@ func (lex *MyLexer) readRune() (rune, int, error) {
 	if isNewline(r) {
 		lex.lineNo += 1
 	}
+	lex.checkRead(err)
 	return r, n, err
 }
 
+// checkRead makes sure that failure to read input is reported, no matter what was being read.
+func (lex *MyLexer) checkRead(err error) {
+	if err != nil && err != io.EOF {
+		lex.Error(fmt.Sprintf("Failed to read: %v", err.Error()))
+	}
+}
+
 func (lex *MyLexer) peekRune() rune {
 	r, _ := lex.peekRuneE()
 	return r
@@ -275,15 +283,15 @@ func (lex *MyLexer) peekRunes(n int) string {
 	for n > 0 {
 		for l := 1; l <= utf8.UTFMax; l++ {
 			buf, err := lex.bufReader.Peek(pos + l)
-			slice := buf[pos : pos+l]
-			if pos+l <= len(buf) && utf8.FullRune(slice) {
-				r, size := utf8.DecodeRune(slice)
+			if pos+l <= len(buf) && utf8.FullRune(buf[pos:pos+l]) {
+				r, size := utf8.DecodeRune(buf[pos : pos+l])
 				acc.WriteRune(r)
 				pos += size
 				n -= 1
 				break
 			}
-			if err == io.EOF { // TODO if it is not a full rune, will swallow the error
+			if err != nil { // TODO if it is not a full rune, will swallow EOF
+				lex.checkRead(err)
 				return acc.String()
 			}
 		}
@@ -296,6 +304,7 @@ func (lex *MyLexer) peekRuneE() (rune, error) {
 	if err == nil {
 		lex.bufReader.UnreadRune()
 	}
+	lex.checkRead(err)
 	return r, err
 }
 
@@ -304,7 +313,7 @@ func (lex *MyLexer) skipLineComment() {
 	lastIsHyphen := false
 	for {
 		r, _, err := lex.readRune()
-		if isNewline(r) || err == io.EOF {
+		if isNewline(r) || err != nil {
 			return
 		} else if r == '-' {
 			if lastIsHyphen {
@@ -323,7 +332,7 @@ func (lex *MyLexer) skipBlockComment() {
 	lastIsClosingStar := false
 	for {
 		r, _, err := lex.readRune()
-		if err == io.EOF {
+		if err != nil {
 			return
 		}
 		if r == '/' {
-- 
2.43.0


From e8b2974cd4e7c5be32590c35a6d94b2f5ebaa671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:15 +0000
Subject: [PATCH 15/21] fix: unterminated block comment was accepted

---
 lexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lexer.go b/lexer.go
index b88f89b..4d28ede 100644
--- a/lexer.go
+++ b/lexer.go
@@ -332,6 +332,9 @@ func (lex *MyLexer) skipBlockComment() {
 	lastIsClosingStar := false
 	for {
 		r, _, err := lex.readRune()
+		if err == io.EOF {
+			lex.Error("unterminated block comment")
+		}
 		if err != nil {
 			return
 		}
-- 
2.43.0


From 3f3b94eed0c59d77d80c1567028e9bb7c4a71653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 16/21] fix: CRLF line endings were counted as two lines in
 error messages

---
 lexer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index 4d28ede..14ed5e8 100644
--- a/lexer.go
+++ b/lexer.go
@@ -108,6 +108,8 @@ type MyLexer struct {
 
 	// lineNo is 0-indexed line number used for error reporting.
 	lineNo int
+	// lastIsCR is set if carriage return was just read, line feed that follows it does not start one more line.
+	lastIsCR bool
 }
 
 // Lex implements yyLexer.
@@ -249,14 +251,16 @@ func (lex *MyLexer) unreadRune() error {
 	if isNewline(lex.peekRune()) {
 		lex.lineNo -= 1
 	}
+	lex.lastIsCR = false
 	return r
 }
 
 func (lex *MyLexer) readRune() (rune, int, error) {
 	r, n, err := lex.bufReader.ReadRune()
-	if isNewline(r) {
+	if isNewline(r) && !(r == '\n' && lex.lastIsCR) {
 		lex.lineNo += 1
 	}
+	lex.lastIsCR = r == '\r'
 	lex.checkRead(err)
 	return r, n, err
 }
-- 
2.43.0


From b0fbad6035dc7be667a53413e581464c6ae9236e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:38 +0000
Subject: [PATCH 17/21] fix: error messages were interpreted as format strings
 and named the wrong file

---
 cmd/asn1go/main.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/asn1go/main.go b/cmd/asn1go/main.go
index b86b2da..d884195 100644
--- a/cmd/asn1go/main.go
+++ b/cmd/asn1go/main.go
@@ -44,7 +44,7 @@ func parseFlags(args []string) (res flagsType) {
 		res.outputName = cmd.Arg(1)
 	}
 	if cmd.NArg() > 2 {
-		failWithError(usage)
+		failWithError("%v", usage)
 	}
 	return res
 }
@@ -62,7 +62,7 @@ func openChannels(inputName, outputName string) (input, output *os.File) {
 	if len(outputName) != 0 {
 		output, err = os.OpenFile(outputName, os.O_CREATE|os.O_WRONLY, 0644)
 		if err != nil {
-			failWithError("File %v can not be written: %v", inputName, err.Error())
+			failWithError("File %v can not be written: %v", outputName, err.Error())
 		}
 		if err := output.Truncate(0); err != nil {
 			failWithError("Failed to truncate file: %v", err.Error())
@@ -77,7 +77,7 @@ func main() {
 
 	module, err := asn1go.ParseStream(input)
 	if err != nil {
-		failWithError(err.Error())
+		failWithError("%v", err.Error())
 	}
 	params := asn1go.GenParams{
 		Package:     flags.packageName,
@@ -86,7 +86,7 @@ func main() {
 	gen := asn1go.NewCodeGenerator(params)
 	err = gen.Generate(*module, output)
 	if err != nil {
-		failWithError(err.Error())
+		failWithError("%v", err.Error())
 	}
 
 	output.Close()
-- 
2.43.0


From d8483ea118c82db9a1c0b0b91eccb3b7bb0f8a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:46 +0000
Subject: [PATCH 18/21] fix: failed run destroyed existing output file and
 write errors were ignored

---
 cmd/asn1go/main.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/cmd/asn1go/main.go b/cmd/asn1go/main.go
index d884195..c9cf617 100644
--- a/cmd/asn1go/main.go
+++ b/cmd/asn1go/main.go
@@ -2,6 +2,7 @@
 package main
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
 	"github.com/chemikadze/asn1go"
@@ -49,16 +50,21 @@ func parseFlags(args []string) (res flagsType) {
 	return res
 }
 
-func openChannels(inputName, outputName string) (input, output *os.File) {
+func openInput(inputName string) (input *os.File) {
 	var err error
 	input = os.Stdin
-	output = os.Stdout
 	if len(inputName) != 0 {
 		input, err = os.Open(inputName)
 		if err != nil {
 			failWithError("Can't open %s for reading: %v", inputName, err.Error())
 		}
 	}
+	return input
+}
+
+func openOutput(outputName string) (output *os.File) {
+	var err error
+	output = os.Stdout
 	if len(outputName) != 0 {
 		output, err = os.OpenFile(outputName, os.O_CREATE|os.O_WRONLY, 0644)
 		if err != nil {
@@ -68,12 +74,12 @@ func openChannels(inputName, outputName string) (input, output *os.File) {
 			failWithError("Failed to truncate file: %v", err.Error())
 		}
 	}
-	return input, output
+	return output
 }
 
 func main() {
 	flags := parseFlags(os.Args)
-	input, output := openChannels(flags.inputName, flags.outputName)
+	input := openInput(flags.inputName)
 
 	module, err := asn1go.ParseStream(input)
 	if err != nil {
@@ -84,11 +90,19 @@ func main() {
 		IntegerRepr: asn1go.IntegerRepr(flags.defaultIntRepr),
 	}
 	gen := asn1go.NewCodeGenerator(params)
-	err = gen.Generate(*module, output)
+	// output is opened only when there is something to write, so that failure leaves existing file as it was
+	var generated bytes.Buffer
+	err = gen.Generate(*module, &generated)
 	if err != nil {
 		failWithError("%v", err.Error())
 	}
-
-	output.Close()
 	input.Close()
+
+	output := openOutput(flags.outputName)
+	if _, err := output.Write(generated.Bytes()); err != nil {
+		failWithError("Failed to write output: %v", err.Error())
+	}
+	if err := output.Close(); err != nil {
+		failWithError("Failed to close output: %v", err.Error())
+	}
 }
-- 
2.43.0


From cfa42cc0385c77a3ff21c051b9c6b8d05e36baeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 19/21] fix: signed values were accepted as bytes of hex dump

---
 internal/utils/dump.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/utils/dump.go b/internal/utils/dump.go
index aaaab7e..959f6ef 100644
--- a/internal/utils/dump.go
+++ b/internal/utils/dump.go
@@ -18,7 +18,7 @@ func ParseWiresharkHex(str string) []byte {
 			if len(byteRepr) == 0 {
 				continue
 			}
-			x, err := strconv.ParseInt(byteRepr, 16, 9)
+			x, err := strconv.ParseUint(byteRepr, 16, 8)
 			if err != nil {
 				panic(err)
 			}
-- 
2.43.0


From afde87826a5496437060e5070eefc5a4a2b28742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 20/21] fix: ws2bin ignored failure to write its output

---
 cmd/ws2bin/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/ws2bin/main.go b/cmd/ws2bin/main.go
index 87664b3..eaae87d 100644
--- a/cmd/ws2bin/main.go
+++ b/cmd/ws2bin/main.go
@@ -14,7 +14,10 @@ func main() {
 		os.Exit(1)
 	}
 	outputBytes := utils.ParseWiresharkHex(string(inputBytes))
-	os.Stdout.Write(outputBytes)
+	if _, err := os.Stdout.Write(outputBytes); err != nil {
+		fmt.Fprintf(os.Stderr, "Failed to write: %v", err.Error())
+		os.Exit(1)
+	}
 	os.Stdout.Sync()
 	os.Stdout.Close()
 }
-- 
2.43.0


From 86e4485fd31d023c871974478fe5e906288e307a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 21/21] fix: field of a referenced string type lost its string
 type tag

---
 codegen.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/codegen.go b/codegen.go
index 0089bb5..ba9d101 100644
--- a/codegen.go
+++ b/codegen.go
@@ -486,6 +486,13 @@ unwrap:
 			break unwrap
 		}
 	}
+	if reference, ok := t.(TypeReference); ok {
+		// referenced string type is generated as plain string, hence needs the same tag
+		leaf := ctx.removeWrapperTypes(ctx.unwrapToLeafType(reference).Type)
+		if stringType, ok := leaf.(RestrictedStringType); ok {
+			t = stringType
+		}
+	}
 	// add type-specific tags
 	switch tt := t.(type) {
 	case RestrictedStringType:
-- 
2.43.0


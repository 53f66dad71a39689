package main

import (
	"go/types"
)

func init() {
	register("ast", "C25", "Summaries of the accessors of the syntax tree (found by the interfaces they implement) are compared with what the property says of them; loops that search a list are described by their first hit.", runAST)
}

func runAST(pr *Program, r *Report) {
	const P = "C25"
	// lists of assignments
	r.expectSummary(P, "lookup", pr.method("", "AssignmentList", "Get"), "AssignmentList.Get", newInterp(pr),
		"found($0, $1) => ret lookup($0, $1)",
		"!(found($0, $1)) => ret nil")
	for _, k := range []string{"Type", "Value"} {
		r.expectSummary(P, "lookup", pr.method("", "AssignmentList", "Get"+k), "AssignmentList.Get"+k, newInterp(pr),
			"found($0, $1) && is[asn1go."+k+"Assignment](lookup($0, $1)) => ret &lookup($0, $1).(asn1go."+k+"Assignment)",
			"!(is[asn1go."+k+"Assignment](lookup($0, $1))) && found($0, $1) => ret nil",
			"!(found($0, $1)) => ret nil")
	}
	each := func(iface, m string, want map[string]string) {
		it := pr.typ("", iface)
		if it == nil {
			r.check(P, "accessor", iface, "exists", 0, false, "interface was not found")
			return
		}
		seen := map[string]bool{}
		for _, t := range pr.implementers("", it) {
			n := typeName(t)
			seen[n] = true
			w, ok := want[n]
			if !ok {
				// a wrapper such as SingleValue gets the method from what it embeds
				if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() == 1 && st.Field(0).Embedded() {
					continue
				}
				r.check(P, "accessor", n+"."+m, "specified", 0, false, "nothing is specified for this implementation of %s", iface)
				continue
			}
			r.expectSummary(P, "accessor", pr.method("", n, m), n+"."+m, newInterp(pr), "always => ret "+w)
		}
		for n := range want {
			r.check(P, "accessor", n+"."+m, "implements", 0, seen[n], "%s does not implement %s", n, iface)
		}
	}
	each("Assignment", "Reference", map[string]string{
		"TypeAssignment":  "iface[asn1go.TypeReference]($0.TypeReference)",
		"ValueAssignment": "iface[asn1go.ValueReference]($0.ValueReference)",
	})
	each("Reference", "Name", map[string]string{"TypeReference": "$0", "ValueReference": "$0", "Identifier": "$0"})
	each("Value", "Type", map[string]string{
		"Number":                 "iface[asn1go.IntegerType](asn1go.IntegerType{})",
		"Real":                   "iface[asn1go.RealType](asn1go.RealType{})",
		"Boolean":                "iface[asn1go.BooleanType](asn1go.BooleanType{})",
		"DefinedValue":           "nil",
		"IdentifiedIntegerValue": "$0.valueType",
		"ObjectIdentifierValue":  "iface[asn1go.ObjectIdentifierType](asn1go.ObjectIdentifierType{})",
	})
	r.expectSummary(P, "number", pr.method("", "Number", "IntValue"), "Number.IntValue", newInterp(pr), "always => ret $0")
	r.expectSummary(P, "number", pr.method("", "Number", "UnaryMinus"), "Number.UnaryMinus", newInterp(pr), "always => ret -$0")
	r.expectSummary(P, "number", pr.method("", "Real", "UnaryMinus"), "Real.UnaryMinus", newInterp(pr), "always => ret -$0")
	r.expectSummary(P, "accessor", pr.method("", "RangeEndpoint", "IsUnspecified"), "RangeEndpoint.IsUnspecified", newInterp(pr),
		"($0.Value == nil) => ret true", "!(($0.Value == nil)) => ret false")
	r.expectSummary(P, "accessor", pr.pkg("").Func("SingleElementConstraint"), "SingleElementConstraint", newInterp(pr),
		"always => ret asn1go.Constraint{ConstraintSpec: iface[asn1go.SubtypeConstraint]([iface[asn1go.Unions]([[asn1go.IntersectionElements{Elements: $0}]])])}")
}

package goabnf

import strings "strings"

func vr__getDependencies(alt Alternation) []string {
	deps := []string{}
	for _, conc := range alt.Concatenations {
		for _, rep := range conc.Repetitions {
			switch v := rep.Element.(type) {
			case ElemGroup:
				deps = vr__appendDeps(deps, vr__getDependencies(v.Alternation)...)
			case ElemOption:
				deps = vr__appendDeps(deps, vr__getDependencies(v.Alternation)...)
			case ElemRulename:
				deps = vr__appendDeps(deps, strings.ToLower(v.Name))
			}
		}
	}
	return deps
}

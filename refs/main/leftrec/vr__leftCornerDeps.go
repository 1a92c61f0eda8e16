package goabnf

import strings "strings"

func vr__leftCornerDeps(g *Grammar, null map[string]bool, alt Alternation) []string {
	deps := []string{}
	var addAlt func(Alternation)
	addElem := func(e ElemItf) {
		switch v := e.(type) {
		case ElemRulename:
			deps = vr__appendDeps(deps, strings.ToLower(v.Name))
		case ElemGroup:
			addAlt(v.Alternation)
		case ElemOption:
			addAlt(v.Alternation)
		}
	}
	addAlt = func(a Alternation) {
		for _, c := range a.Concatenations {
			for _, rep := range c.Repetitions {
				addElem(rep.Element)
				if rep.Min == 0 || vr__elemNullable(g, null, rep.Element) {
					continue
				}
				break
			}
		}
	}
	addAlt(alt)
	return deps
}

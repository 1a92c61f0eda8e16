package goabnf

import strings "strings"

func vr_Grammar_nullableRules(g *Grammar) map[string]bool {
	rules := map[string]*Rule{}
	for n := range g.Rulemap {
		if r := vr__GetRule(n, g.Rulemap); r != nil {
			rules[strings.ToLower(r.Name)] = r
		}
	}
	for n := range coreRules {
		if r := vr__GetRule(n, g.Rulemap); r != nil {
			rules[strings.ToLower(r.Name)] = r
		}
	}
	null := map[string]bool{}
	for changed := true; changed; {
		changed = false
		for name, r := range rules {
			if !null[name] && vr__altNullable(g, null, r.Alternation) {
				null[name] = true
				changed = true
			}
		}
	}
	return null
}

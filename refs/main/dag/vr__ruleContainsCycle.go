package goabnf

import strings "strings"

func vr__ruleContainsCycle(sccs [][]*node, rulename string) bool {

	nodeOf := make(map[string]*node, len(sccs))
	inCycle := make(map[string]bool, len(sccs))

	for _, s := range sccs {
		nontrivial := len(s) > 1
		for _, nd := range s {
			key := strings.ToLower(nd.Rulename)
			nodeOf[key] = nd
			inCycle[key] = nontrivial
		}
	}
	return vr__ruleCycleVisit(strings.ToLower(rulename), nodeOf, inCycle, map[string]bool{})
}

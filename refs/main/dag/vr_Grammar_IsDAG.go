package goabnf

import slices "slices"
import strings "strings"

func vr_Grammar_IsDAG(g *Grammar) bool {
	scc := &cycle{
		index: 0,
		stack: []*node{},
		dg:    vr_Grammar_DependencyGraph(g),
	}
	vr_cycle_find(scc)

	for _, sccs := range scc.sccs {
		if len(sccs) > 1 {
			return false
		}

		for _, nd := range sccs {
			if slices.Contains(nd.Dependencies, strings.ToLower(nd.Rulename)) {
				return false
			}
		}
	}
	return true
}

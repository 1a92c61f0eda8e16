package goabnf

import slices "slices"
import strings "strings"

func vr_Grammar_leftRecursiveSCCs(g *Grammar) map[string][]string {
	null := vr_Grammar_nullableRules(g)

	lc := Depgraph{}
	add := func(r *Rule) {
		name := strings.ToLower(r.Name)
		if _, ok := lc[name]; ok {
			return
		}
		lc[name] = &node{Rulename: r.Name, Dependencies: vr__leftCornerDeps(g, null, r.Alternation)}
	}
	for n := range g.Rulemap {
		if r := vr__GetRule(n, g.Rulemap); r != nil {
			add(r)
		}
	}
	for n := range coreRules {
		if r := vr__GetRule(n, g.Rulemap); r != nil {
			add(r)
		}
	}

	finder := &cycle{index: 0, stack: []*node{}, dg: lc}
	vr_cycle_find(finder)

	out := map[string][]string{}
	for _, scc := range finder.sccs {
		members := make([]string, len(scc))
		for i, nd := range scc {
			members[i] = strings.ToLower(nd.Rulename)
		}
		leftRecursive := len(scc) > 1
		if !leftRecursive {
			leftRecursive = slices.Contains(scc[0].Dependencies, members[0])
		}
		if leftRecursive {
			for _, m := range members {
				out[m] = members
			}
		}
	}
	return out
}

package goabnf

func vr_Grammar_RuleContainsCycle(g *Grammar, rulename string) (bool, error) {

	rule := vr__GetRule(rulename, g.Rulemap)
	if rule == nil {
		return false, &ErrRuleNotFound{
			Rulename: rulename,
		}
	}

	scc := &cycle{
		index: 0,
		stack: []*node{},
		dg:    vr_Grammar_DependencyGraph(g),
	}
	vr_cycle_find(scc)

	return vr__ruleContainsCycle(scc.sccs, rulename), nil
}

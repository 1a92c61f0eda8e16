package goabnf

func vr__checkRulesDefined(g *Grammar, alt Alternation, visited map[string]bool) error {
	for _, dep := range vr__getDependencies(alt) {
		if visited[dep] {
			continue
		}
		visited[dep] = true
		rule := vr__GetRule(dep, g.Rulemap)
		if rule == nil {
			return &ErrRuleNotFound{Rulename: dep}
		}
		if err := vr__checkRulesDefined(g, rule.Alternation, visited); err != nil {
			return err
		}
	}
	return nil
}

package goabnf

func vr__SemvalABNF(g *Grammar) error {

	for _, rule := range g.Rulemap {
		deps := vr__getDependencies(rule.Alternation)
		for _, dep := range deps {
			r := vr__GetRule(dep, g.Rulemap)
			if r == nil {
				return &ErrDependencyNotFound{
					Rulename: dep,
				}
			}
		}
	}

	for _, rule := range g.Rulemap {
		if err := vr__semvalAlternation(rule.Alternation); err != nil {
			return err
		}
	}
	return nil
}

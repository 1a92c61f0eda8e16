package goabnf

func vr__checkCanGenerateSafely(g *Grammar, rulename string) error {
	rule := vr__GetRule(rulename, g.Rulemap)
	if rule == nil {
		return &ErrRuleNotFound{
			Rulename: rulename,
		}
	}
	if err := vr__checkRulesDefined(g, rule.Alternation, map[string]bool{}); err != nil {
		return err
	}
	knownRules := map[string]struct{}{
		rulename: {},
	}
	if err := vr__checkCanGenerateSafelyAlt(g, knownRules, rule.Alternation); err != nil {
		if err, ok := err.(*ErrCyclicRule); ok {
			return err
		}
		return &ErrCyclicRule{
			Rulename: rulename,
		}
	}
	return nil
}

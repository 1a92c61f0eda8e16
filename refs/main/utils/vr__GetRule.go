package goabnf

func vr__GetRule(rulename string, rulemap map[string]*Rule) *Rule {

	if rule := vr__getRuleIn(rulename, rulemap); rule != nil {
		return rule
	}
	return vr__getRuleIn(rulename, coreRules)
}

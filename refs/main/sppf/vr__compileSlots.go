package goabnf

func vr__compileSlots(g *Grammar, rootRulename string, maxSlots int) (*slotGrammar, error) {
	if vr__GetRule(rootRulename, g.Rulemap) == nil {
		return nil, &ErrRuleNotFound{Rulename: rootRulename}
	}
	sg := &slotGrammar{index: map[string]int{}}
	c := &lowerer{g: g, sg: sg, max: maxSlots}
	sg.start = vr_lowerer_rule(c, rootRulename)
	if c.err != nil {
		return nil, c.err
	}
	if c.over {
		return nil, &ErrGrammarTooLarge{Max: maxSlots}
	}
	return sg, nil
}

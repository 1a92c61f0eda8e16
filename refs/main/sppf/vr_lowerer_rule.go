package goabnf

func vr_lowerer_rule(c *lowerer, name string) int {
	key := "rule:" + vr__canon(name)
	id, existed := vr_slotGrammar_reserve(c.sg, key, name)
	if existed {
		return id
	}
	if vr_lowerer_budgetExceeded(c) {
		return id
	}
	rule := vr__GetRule(name, c.g.Rulemap)
	if rule == nil {

		c.sg.nts[id].label = name
		return id
	}
	c.sg.nts[id].isRule = true
	c.sg.nts[id].ruleName = rule.Name
	c.sg.nts[id].alts = vr_lowerer_alts(c, rule.Alternation)
	return id
}

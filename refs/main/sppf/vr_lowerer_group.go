package goabnf

func vr_lowerer_group(c *lowerer, v ElemGroup) int {
	key := "grp:" + vr_ElemGroup_String(v)
	id, existed := vr_slotGrammar_reserve(c.sg, key, vr_ElemGroup_String(v))
	if existed {
		return id
	}
	if vr_lowerer_budgetExceeded(c) {
		return id
	}
	c.sg.nts[id].alts = vr_lowerer_alts(c, v.Alternation)
	return id
}

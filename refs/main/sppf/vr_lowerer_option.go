package goabnf

func vr_lowerer_option(c *lowerer, v ElemOption) int {
	key := "opt:" + vr_ElemOption_String(v)
	id, existed := vr_slotGrammar_reserve(c.sg, key, vr_ElemOption_String(v))
	if existed {
		return id
	}
	if vr_lowerer_budgetExceeded(c) {
		return id
	}
	alts := [][]ssym{{{kind: symKind(2)}}}
	alts = append(alts, vr_lowerer_alts(c, v.Alternation)...)
	c.sg.nts[id].alts = alts
	return id
}

package goabnf

func vr_lowerer_rep(c *lowerer, rep Repetition) ssym {
	if rep.Min == 1 && rep.Max == 1 {
		return vr_lowerer_elem(c, rep.Element)
	}
	key := "rep:" + vr_Repetition_String(rep)
	id, existed := vr_slotGrammar_reserve(c.sg, key, vr_Repetition_String(rep))
	if existed {
		return ssym{kind: symKind(0), nt: id}
	}
	if vr_lowerer_budgetExceeded(c) {
		return ssym{kind: symKind(0), nt: id}
	}

	if rep.Max != int(-1) && rep.Max < rep.Min {
		return ssym{kind: symKind(0), nt: id}
	}

	esym := vr_lowerer_elem(c, rep.Element)
	self := ssym{kind: symKind(0), nt: id}
	c.sg.nts[id].alts = [][]ssym{
		{{kind: symKind(2)}},
		{esym, self},
	}
	c.sg.nts[id].label = vr_Repetition_String(rep)
	c.sg.nts[id].isRep = true
	c.sg.nts[id].repMin = rep.Min
	c.sg.nts[id].repMax = rep.Max
	return self
}

package goabnf

func vr_lowerer_elem(c *lowerer, e ElemItf) ssym {
	switch v := e.(type) {
	case ElemRulename:
		return ssym{kind: symKind(0), nt: vr_lowerer_rule(c, v.Name)}
	case ElemGroup:
		return ssym{kind: symKind(0), nt: vr_lowerer_group(c, v)}
	case ElemOption:
		return ssym{kind: symKind(0), nt: vr_lowerer_option(c, v)}
	case ElemCharVal, ElemNumVal, ElemProseVal:
		return ssym{kind: symKind(1), term: e}
	}
	return ssym{kind: symKind(1), term: e}
}

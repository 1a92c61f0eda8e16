package goabnf

func vr_feval_element(e *feval, t *ParseTree) (ElemItf, error) {
	c := vr__ptFirst(t, "rulename", "group", "option", "char-val", "num-val", "prose-val")
	if c == nil {
		return nil, ErrNoSolutionFound
	}
	switch c.Rule {
	case "rulename":
		return ElemRulename{Name: vr_feval_span(e, c)}, nil
	case "group":
		alt, err := vr_feval_alternation(e, vr__ptFirst(c, "alternation"))
		if err != nil {
			return nil, err
		}
		return ElemGroup{Alternation: alt}, nil
	case "option":
		alt, err := vr_feval_alternation(e, vr__ptFirst(c, "alternation"))
		if err != nil {
			return nil, err
		}
		return ElemOption{Alternation: alt}, nil
	case "char-val":
		return vr_feval_charVal(e, c), nil
	case "num-val":
		return vr_feval_numVal(e, c), nil
	case "prose-val":
		return vr_feval_proseVal(e, c), nil
	}
	return nil, ErrNoSolutionFound
}

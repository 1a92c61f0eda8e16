package goabnf

func vr_feval_alternation(e *feval, t *ParseTree) (Alternation, error) {
	var cs []Concatenation
	for _, cc := range vr__ptChildren(t, "concatenation") {
		c, err := vr_feval_concatenation(e, cc)
		if err != nil {
			return Alternation{}, err
		}
		cs = append(cs, c)
	}
	return Alternation{Concatenations: cs}, nil
}

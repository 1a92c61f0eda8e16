package goabnf

func vr_feval_repetition(e *feval, t *ParseTree) (Repetition, error) {
	min, max := 1, 1
	if rep := vr__ptFirst(t, "repeat"); rep != nil {
		min, max = vr_feval_parseRepeat(e, rep)
	}
	elNode := vr__ptFirst(t, "element")
	if elNode == nil {
		return Repetition{}, ErrNoSolutionFound
	}
	elem, err := vr_feval_element(e, elNode)
	if err != nil {
		return Repetition{}, err
	}
	return Repetition{Min: min, Max: max, Element: elem}, nil
}

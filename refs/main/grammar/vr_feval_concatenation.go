package goabnf

func vr_feval_concatenation(e *feval, t *ParseTree) (Concatenation, error) {
	var rs []Repetition
	for _, rc := range vr__ptChildren(t, "repetition") {
		r, err := vr_feval_repetition(e, rc)
		if err != nil {
			return Concatenation{}, err
		}
		rs = append(rs, r)
	}
	return Concatenation{Repetitions: rs}, nil
}

package goabnf

func vr_feval_proseVal(e *feval, t *ParseTree) ElemProseVal {
	values := []string{}
	for i := t.Start + 1; i < t.End-1; i++ {
		values = append(values, string(e.input[i]))
	}
	return ElemProseVal{values: values}
}

package goabnf

func vr_feval_span(e *feval, t *ParseTree) string { return string(e.input[t.Start:t.End]) }

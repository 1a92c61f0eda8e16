package goabnf

func vr_ParseError_Unwrap(e *ParseError) error { return ErrNoSolutionFound }

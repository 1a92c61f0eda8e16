package goabnf

func vr_reNever_prec(_ *reNever) int {
	return 4
}

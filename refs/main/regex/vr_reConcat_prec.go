package goabnf

func vr_reConcat_prec(_ *reConcat) int {
	return 2
}

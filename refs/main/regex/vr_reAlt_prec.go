package goabnf

func vr_reAlt_prec(_ *reAlt) int {
	return 1
}

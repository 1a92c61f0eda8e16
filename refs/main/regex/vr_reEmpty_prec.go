package goabnf

func vr_reEmpty_prec(_ *reEmpty) int {
	return 4
}

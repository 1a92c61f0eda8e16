package goabnf

func vr_reClass_prec(_ *reClass) int {
	return 4
}

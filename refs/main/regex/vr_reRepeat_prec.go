package goabnf

func vr_reRepeat_prec(_ *reRepeat) int {
	return 3
}

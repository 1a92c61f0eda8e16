package goabnf

func vr__capRC(rc int, nt *sgNT) int {
	next := rc + 1
	if nt.repMax == int(-1) && next > nt.repMin {
		next = nt.repMin
	}
	return next
}

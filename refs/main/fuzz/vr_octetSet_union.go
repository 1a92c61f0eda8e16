package goabnf

func vr_octetSet_union(s octetSet, o octetSet) octetSet {
	return octetSet{s[0] | o[0], s[1] | o[1], s[2] | o[2], s[3] | o[3]}
}

package goabnf

func vr_octetSet_add(s *octetSet, b byte) {
	s[b>>6] |= 1 << (b & 63)
}

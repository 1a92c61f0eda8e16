package goabnf

func vr_octetSet_has(s octetSet, b byte) bool {
	return s[b>>6]&(1<<(b&63)) != 0
}

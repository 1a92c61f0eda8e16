package goabnf

func vr__numvalToRune(str, base string) rune {
	return rune(vr__numvalToInt32(str, base))
}

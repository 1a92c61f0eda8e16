package goabnf

func vr__appendPtr(slc *[]byte, v ...rune) {
	b := *slc
	b = append(b, []byte(string(v))...)
	*slc = b
}

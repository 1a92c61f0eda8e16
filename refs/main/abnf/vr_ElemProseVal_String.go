package goabnf

func vr_ElemProseVal_String(epvl ElemProseVal) string {
	str := ""
	for _, val := range epvl.values {
		str += val
	}
	return "<" + str + ">"
}

package goabnf

func vr_ElemOption_String(eopt ElemOption) string {
	return "[" + vr_Alternation_String(eopt.Alternation) + "]"
}

package goabnf

func vr_ElemGroup_String(egrp ElemGroup) string {
	return "(" + vr_Alternation_String(egrp.Alternation) + ")"
}

package goabnf

func vr_ElemRulename_String(erln ElemRulename) string {
	return erln.Name
}

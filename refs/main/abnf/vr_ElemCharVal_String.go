package goabnf

func vr_ElemCharVal_String(ecvl ElemCharVal) string {
	str := ""
	for _, val := range ecvl.Values {
		str += string(val)
	}
	if ecvl.Sensitive {
		return `%s"` + str + `"`
	}
	return `"` + str + `"`
}

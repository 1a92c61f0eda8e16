package goabnf

import strings "strings"

func vr_ElemNumVal_String(envl ElemNumVal) string {
	str := "%" + envl.Base
	spl := "."
	if envl.Status == Status(1) {
		spl = "-"
	}
	for _, val := range envl.Elems {
		str += val + spl
	}
	return strings.TrimSuffix(str, spl)
}

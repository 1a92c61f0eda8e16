package goabnf

import strconv "strconv"

func vr_Repetition_String(rep Repetition) string {
	if rep.Min == rep.Max {
		if rep.Min == 1 {
			return rep.Element.String()
		}
		return strconv.Itoa(rep.Min) + rep.Element.String()
	}
	str := ""
	if rep.Min != 0 {
		str += strconv.Itoa(rep.Min)
	}
	str += "*"
	if rep.Max != int(-1) {
		str += strconv.Itoa(rep.Max)
	}
	return str + rep.Element.String()
}

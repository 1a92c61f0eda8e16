package goabnf

import utf8 "unicode/utf8"

func vr__numvalRange(elem ElemItf) (numvalInfo, bool) {
	nv, ok := elem.(ElemNumVal)
	if !ok || nv.Status != Status(1) {
		return numvalInfo{}, false
	}
	min, max := vr__numvalToInt32(nv.Elems[0], nv.Base), vr__numvalToInt32(nv.Elems[1], nv.Base)

	if max > utf8.MaxRune {
		max = utf8.MaxRune
	}
	return numvalInfo{min: min, max: max, label: elem.String()}, true
}

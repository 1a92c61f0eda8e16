package goabnf

import strconv "strconv"

func vr__numvalToUint64(str, base string) (uint64, bool) {
	v, err := strconv.ParseUint(str, vr__baseRadix(base), 64)
	if err != nil {
		return 0, false
	}
	return v, true
}

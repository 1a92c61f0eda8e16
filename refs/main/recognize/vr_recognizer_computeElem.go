package goabnf

import utf8 "unicode/utf8"

func vr_recognizer_computeElem(r *recognizer, elem ElemItf, index int) map[int]bool {
	out := map[int]bool{}
	switch v := elem.(type) {
	case ElemRulename:
		rule := vr__GetRule(v.Name, r.g.Rulemap)
		if rule == nil {
			return out
		}
		return vr_recognizer_reachAlt(r, rule.Alternation, index)

	case ElemGroup:
		return vr_recognizer_reachAlt(r, v.Alternation, index)

	case ElemOption:
		out[index] = true
		for e := range vr_recognizer_reachAlt(r, v.Alternation, index) {
			out[e] = true
		}
		return out

	case ElemProseVal:

		return out

	case ElemNumVal:
		switch v.Status {
		case Status(1):
			if index >= len(r.input) {
				return out
			}

			min := vr__numvalToRune(v.Elems[0], v.Base)
			max := vr__numvalToRune(v.Elems[1], v.Base)
			ru, size := utf8.DecodeRune(r.input[index:])
			if ru == utf8.RuneError && size == 1 {
				return out
			}
			if min <= ru && ru <= max {
				out[index+size] = true
			}
		case Status(0):
			idx := index
			for i := 0; i < len(v.Elems); i++ {
				ru := vr__numvalToRune(v.Elems[i], v.Base)

				if !utf8.ValidRune(ru) {
					return out
				}
				s := string(ru)
				sz := len([]byte(s))
				if idx+sz > len(r.input) || s != string(r.input[idx:idx+sz]) {
					return out
				}
				idx += sz
			}
			out[idx] = true
		}
		return out

	case ElemCharVal:
		idx := index
		for i := 0; i < len(v.Values); i++ {
			if idx >= len(r.input) {
				return out
			}
			ru, size := utf8.DecodeRune(r.input[idx:])
			if ru == utf8.RuneError && size == 1 {
				return out
			}
			if !vr__sensequal(v.Values[i], ru, v.Sensitive) {
				return out
			}
			idx += size
		}
		out[idx] = true
		return out
	}
	return out
}

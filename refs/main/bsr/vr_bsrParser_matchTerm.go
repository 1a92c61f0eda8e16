package goabnf

import utf8 "unicode/utf8"

func vr_bsrParser_matchTerm(p *bsrParser, s ssym, i int) int {
	if s.kind == symKind(2) {
		return i
	}
	switch v := s.term.(type) {
	case ElemCharVal:
		idx := i
		for k := 0; k < len(v.Values); k++ {
			if idx >= len(p.input) {
				return -1
			}
			r, size := utf8.DecodeRune(p.input[idx:])
			if r == utf8.RuneError && size == 1 {
				return -1
			}
			if !vr__sensequal(v.Values[k], r, v.Sensitive) {
				return -1
			}
			idx += size
		}
		return idx
	case ElemNumVal:
		switch v.Status {
		case Status(1):
			if i >= len(p.input) {
				return -1
			}
			min := vr__numvalToRune(v.Elems[0], v.Base)
			max := vr__numvalToRune(v.Elems[1], v.Base)
			r, size := utf8.DecodeRune(p.input[i:])
			if r == utf8.RuneError && size == 1 {
				return -1
			}
			if min <= r && r <= max {
				return i + size
			}
			return -1
		case Status(0):
			idx := i
			for k := 0; k < len(v.Elems); k++ {
				ru := vr__numvalToRune(v.Elems[k], v.Base)
				if !utf8.ValidRune(ru) {
					return -1
				}
				str := string(ru)
				sz := len(str)
				if idx+sz > len(p.input) || str != string(p.input[idx:idx+sz]) {
					return -1
				}
				idx += sz
			}
			return idx
		}
	}
	return -1
}

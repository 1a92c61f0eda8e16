package goabnf

import utf8 "unicode/utf8"

func vr_reBuilder_elem(b *reBuilder, e ElemItf) reNode {
	switch v := e.(type) {
	case ElemRulename:
		return vr_reBuilder_rule(b, v.Name)
	case ElemGroup:
		return vr_reBuilder_alt(b, v.Alternation)
	case ElemOption:
		return &reRepeat{sub: vr_reBuilder_alt(b, v.Alternation), min: 0, max: 1}
	case ElemNumVal:
		switch v.Status {
		case Status(1):
			lo := vr__numvalToRune(v.Elems[0], v.Base)
			hi := min(vr__numvalToRune(v.Elems[1], v.Base), utf8.MaxRune)
			if lo > utf8.MaxRune || lo > hi {
				return reNeverV
			}
			return &reClass{ranges: []reRange{{lo, hi}}}
		default:
			parts := make([]reNode, 0, len(v.Elems))
			for _, s := range v.Elems {
				c := vr__numvalToRune(s, v.Base)

				if !utf8.ValidRune(c) {
					return reNeverV
				}
				parts = append(parts, &reClass{ranges: []reRange{{c, c}}})
			}
			return &reConcat{parts: parts}
		}
	case ElemCharVal:

		parts := make([]reNode, 0, len(v.Values))
		for _, c := range v.Values {
			parts = append(parts, vr__charClass(c, v.Sensitive))
		}
		return &reConcat{parts: parts}
	case ElemProseVal:
		if b.err == nil {
			b.err = ErrHandlingProseVal
		}
		return reEmptyV
	}
	return reEmptyV
}

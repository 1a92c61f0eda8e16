package goabnf

import utf8 "unicode/utf8"

func vr_ASTGenerator_genElem(ag *ASTGenerator, src source, out *[]byte, elem ElemItf, depth int) {
	switch e := elem.(type) {
	case ElemRulename:

		r := vr__GetRule(e.Name, ag.g.Rulemap)
		vr_ASTGenerator_genAlt(ag, src, out, r.Alternation, depth+1)

	case ElemGroup:
		vr_ASTGenerator_genAlt(ag, src, out, e.Alternation, depth)

	case ElemOption:
		if !vr_ASTGenerator_over(ag, out, depth) && src.intn(2) == 1 {
			vr_ASTGenerator_genAlt(ag, src, out, e.Alternation, depth)
		}

	case ElemCharVal:
		for _, r := range e.Values {
			if !e.Sensitive && vr__isASCIILetter(r) && src.intn(2) == 1 {
				r = vr__flipASCIICase(r)
			}
			*out = append(*out, []byte(string(r))...)
		}

	case ElemNumVal:
		switch e.Status {
		case Status(0):
			for _, v := range e.Elems {
				r := vr__numvalToRune(v, e.Base)

				if utf8.ValidRune(r) {
					*out = append(*out, []byte(string(r))...)
				}
			}
		case Status(1):
			min, max := vr__numvalToRune(e.Elems[0], e.Base), vr__numvalToRune(e.Elems[1], e.Base)

			if max > utf8.MaxRune {
				max = utf8.MaxRune
			}
			if min > utf8.MaxRune || min > max {
				break
			}
			span := int(max-min) + 1
			if span < 1 {
				span = 1
			}
			*out = append(*out, []byte(string(min+rune(src.intn(span))))...)
		}

	case ElemProseVal:

	}
}

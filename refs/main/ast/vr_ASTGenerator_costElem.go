package goabnf

func vr_ASTGenerator_costElem(ag *ASTGenerator, elem ElemItf) int {
	switch e := elem.(type) {
	case ElemRulename:
		r := vr__GetRule(e.Name, ag.g.Rulemap)
		if r == nil {
			return 1073741824
		}
		if c, ok := ag.minCost[r.Name]; ok {

			return vr__addClamp(1, c)
		}
		return 1073741824
	case ElemGroup:
		return vr_ASTGenerator_costAlt(ag, e.Alternation)
	case ElemOption:
		return 0
	case ElemCharVal:
		return len(string(e.Values))
	case ElemNumVal:
		switch e.Status {
		case Status(0):
			n := 0
			for _, v := range e.Elems {
				n += len(string(vr__numvalToRune(v, e.Base)))
			}
			return n
		default:
			return len(string(vr__numvalToRune(e.Elems[0], e.Base)))
		}
	case ElemProseVal:
		return 0
	}
	return 0
}

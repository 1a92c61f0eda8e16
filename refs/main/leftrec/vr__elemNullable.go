package goabnf

import strings "strings"

func vr__elemNullable(g *Grammar, null map[string]bool, elem ElemItf) bool {
	switch v := elem.(type) {
	case ElemOption:
		return true
	case ElemGroup:
		return vr__altNullable(g, null, v.Alternation)
	case ElemRulename:
		return null[strings.ToLower(v.Name)]
	case ElemCharVal:
		return len(v.Values) == 0
	}

	return false
}

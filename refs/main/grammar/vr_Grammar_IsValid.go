package goabnf

func vr_Grammar_IsValid(g *Grammar, rulename string, input []byte) (bool, error) {
	rule := vr__GetRule(rulename, g.Rulemap)
	if rule == nil {
		return false, &ErrRuleNotFound{Rulename: rulename}
	}

	r := &recognizer{
		g:          g,
		input:      input,
		memo:       map[string]map[int]bool{},
		inProgress: map[string]bool{},
		leftRec:    vr_Grammar_leftRecursiveSCCs(g),
		growing:    map[string]map[int]bool{},
	}
	ends := vr_recognizer_reachElem(r, ElemRulename{Name: rulename}, 0)
	return ends[len(input)], nil
}

package goabnf

import strings "strings"

func vr_feval_rule(e *feval, t *ParseTree) (*Rule, string, error) {
	nameNode := vr__ptFirst(t, "rulename")
	defNode := vr__ptFirst(t, "defined-as")
	elemsNode := vr__ptFirst(t, "elements")
	if nameNode == nil || defNode == nil || elemsNode == nil {
		return nil, "", ErrNoSolutionFound
	}
	definedAs := "="
	if strings.Contains(vr_feval_span(e, defNode), "=/") {
		definedAs = "=/"
	}
	altNode := vr__ptFirst(elemsNode, "alternation")
	if altNode == nil {
		return nil, "", ErrNoSolutionFound
	}
	alt, err := vr_feval_alternation(e, altNode)
	if err != nil {
		return nil, "", err
	}
	return &Rule{Name: vr_feval_span(e, nameNode), Alternation: alt}, definedAs, nil
}

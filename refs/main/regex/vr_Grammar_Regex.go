package goabnf

import strings "strings"

func vr_Grammar_Regex(g *Grammar, rulename string, opts ...RegexOption) (string, error) {
	o := &regexOptions{}
	for _, op := range opts {
		op.applyRegex(o)
	}

	isCyclic, err := vr_Grammar_RuleContainsCycle(g, rulename)
	if err != nil {
		return "", err
	}
	if isCyclic {
		return "", &ErrCyclicRule{Rulename: rulename}
	}
	rule := vr__GetRule(rulename, g.Rulemap)
	if rule == nil {
		return "", &ErrRuleNotFound{Rulename: rulename}
	}

	b := &reBuilder{g: g, memo: map[string]reNode{}}
	node := vr_reBuilder_alt(b, rule.Alternation)
	if b.err != nil {
		return "", b.err
	}
	node = vr__simplify(node, map[reNode]reNode{})

	r := &reRenderer{max: o.maxLen}
	var sb strings.Builder
	vr_reRenderer_render(r, &sb, node, 1)
	if r.err != nil {
		return "", r.err
	}
	return sb.String(), nil
}

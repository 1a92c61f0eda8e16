package goabnf

import strings "strings"

func vr_reBuilder_rule(b *reBuilder, name string) reNode {
	key := strings.ToLower(name)
	if n, ok := b.memo[key]; ok {
		return n
	}
	r := vr__GetRule(name, b.g.Rulemap)
	if r == nil {
		return reNeverV
	}
	n := vr_reBuilder_alt(b, r.Alternation)
	b.memo[key] = n
	return n
}

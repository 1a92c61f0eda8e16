package goabnf

func vr_reBuilder_alt(b *reBuilder, a Alternation) reNode {
	opts := make([]reNode, 0, len(a.Concatenations))
	for _, c := range a.Concatenations {
		opts = append(opts, vr_reBuilder_concat(b, c))
	}
	return &reAlt{opts: opts}
}

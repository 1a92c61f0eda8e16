package goabnf

func vr_reBuilder_concat(b *reBuilder, c Concatenation) reNode {
	parts := make([]reNode, 0, len(c.Repetitions))
	for _, rep := range c.Repetitions {
		parts = append(parts, &reRepeat{sub: vr_reBuilder_elem(b, rep.Element), min: rep.Min, max: rep.Max})
	}
	return &reConcat{parts: parts}
}

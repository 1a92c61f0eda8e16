package goabnf

func vr_ASTGenerator_genAlt(ag *ASTGenerator, src source, out *[]byte, alt Alternation, depth int) {
	cs := alt.Concatenations
	if len(cs) == 0 {
		return
	}
	idx := 0
	if vr_ASTGenerator_over(ag, out, depth) {
		idx = vr_ASTGenerator_cheapestConcat(ag, cs)
	} else if len(cs) > 1 {
		idx = src.intn(len(cs))
	}
	vr_ASTGenerator_genConcat(ag, src, out, cs[idx], depth)
}

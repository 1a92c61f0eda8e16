package goabnf

func vr_ASTGenerator_walk(ag *ASTGenerator, src source) []byte {
	out := []byte{}
	vr_ASTGenerator_genAlt(ag, src, &out, ag.start.Alternation, 0)
	return out
}

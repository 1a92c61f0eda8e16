package goabnf

func vr_ASTGenerator_genConcat(ag *ASTGenerator, src source, out *[]byte, concat Concatenation, depth int) {
	for _, rep := range concat.Repetitions {
		vr_ASTGenerator_genRep(ag, src, out, rep, depth)
	}
}

package goabnf

func vr_ASTGenerator_costConcat(ag *ASTGenerator, concat Concatenation) int {
	total := 0
	for _, rep := range concat.Repetitions {
		total = vr__addClamp(total, vr__mulClamp(rep.Min, vr_ASTGenerator_costElem(ag, rep.Element)))
	}
	return total
}

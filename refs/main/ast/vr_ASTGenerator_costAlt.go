package goabnf

func vr_ASTGenerator_costAlt(ag *ASTGenerator, alt Alternation) int {
	if len(alt.Concatenations) == 0 {
		return 0
	}
	best := 1073741824
	for _, c := range alt.Concatenations {
		if v := vr_ASTGenerator_costConcat(ag, c); v < best {
			best = v
		}
	}
	return best
}

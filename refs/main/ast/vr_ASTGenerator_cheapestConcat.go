package goabnf

func vr_ASTGenerator_cheapestConcat(ag *ASTGenerator, cs []Concatenation) int {
	best, bestCost := 0, vr_ASTGenerator_costConcat(ag, cs[0])
	for i := 1; i < len(cs); i++ {
		if c := vr_ASTGenerator_costConcat(ag, cs[i]); c < bestCost {
			best, bestCost = i, c
		}
	}
	return best
}

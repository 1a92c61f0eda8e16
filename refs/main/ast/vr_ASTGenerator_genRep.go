package goabnf

func vr_ASTGenerator_genRep(ag *ASTGenerator, src source, out *[]byte, rep Repetition, depth int) {
	lo := rep.Min
	hi := rep.Max
	if hi == int(-1) || hi < lo {
		hi = lo + ag.maxRepeat
	}
	n := lo
	if !vr_ASTGenerator_over(ag, out, depth) && hi > lo {
		n = lo + src.intn(hi-lo+1)
	}
	for i := 0; i < n; i++ {
		vr_ASTGenerator_genElem(ag, src, out, rep.Element, depth)

		if i+1 >= lo && len(*out) >= ag.maxLen {
			break
		}
	}
}

package goabnf

func vr_lowerer_alts(c *lowerer, a Alternation) [][]ssym {
	out := make([][]ssym, 0, len(a.Concatenations))
	for _, cc := range a.Concatenations {
		seq := make([]ssym, 0, len(cc.Repetitions))
		for _, rep := range cc.Repetitions {
			seq = append(seq, vr_lowerer_rep(c, rep))
		}
		if len(seq) == 0 {
			seq = []ssym{{kind: symKind(2)}}
		}
		out = append(out, seq)
	}
	return out
}

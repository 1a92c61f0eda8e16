package goabnf

func vr_TransitionGraphReader_consumeStaged(tgr *TransitionGraphReader) {
	tgr.hasStaged = false
	i := len(tgr.varIdx) - 1
	for i >= 0 {
		tgr.varIdx[i]++
		if tgr.varIdx[i] < tgr.varTot[i] {
			break
		}
		tgr.varIdx[i] = 0
		i--
	}
	if i < 0 {
		tgr.havePath = false
	}
}

package goabnf

func vr_TransitionGraphReader_ensureStaged(tgr *TransitionGraphReader) {
	if tgr.hasStaged || tgr.exhausted {
		return
	}
	if !tgr.havePath {
		if !vr_TransitionGraphReader_advancePath(tgr) {
			tgr.exhausted = true
			return
		}
		tgr.havePath = true
		tgr.varTot = tgr.varTot[:0]
		tgr.varIdx = tgr.varIdx[:0]
		for i := range tgr.stack {
			_, vt := vr__nodeEmit(tgr.stack[i].node, 0)
			if vt < 1 {
				vt = 1
			}
			tgr.varTot = append(tgr.varTot, vt)
			tgr.varIdx = append(tgr.varIdx, 0)
		}
	}
	tgr.staged = tgr.staged[:0]
	for i := range tgr.stack {
		b, _ := vr__nodeEmit(tgr.stack[i].node, tgr.varIdx[i])
		tgr.staged = append(tgr.staged, b...)
	}
	tgr.hasStaged = true
}

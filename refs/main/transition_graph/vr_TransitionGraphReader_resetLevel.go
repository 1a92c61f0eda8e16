package goabnf

func vr_TransitionGraphReader_resetLevel(tgr *TransitionGraphReader) {
	tgr.stack = tgr.stack[:0]
	for k := range tgr.usedEdges {
		delete(tgr.usedEdges, k)
	}
	tgr.levelHadAnyPath = false
}

package goabnf

func vr_TransitionGraphReader_advancePath(tgr *TransitionGraphReader) bool {
	for {
		if tgr.length == 0 {
			tgr.length = 1
			vr_TransitionGraphReader_resetLevel(tgr)
		}
		for vr_TransitionGraphReader_nextLeaf(tgr) {
			if tgr.endSet[vr__tgNodeID(tgr.stack[len(tgr.stack)-1].node)] {
				return true
			}
		}
		if !tgr.levelHadAnyPath {
			return false
		}
		tgr.length++
		vr_TransitionGraphReader_resetLevel(tgr)
	}
}

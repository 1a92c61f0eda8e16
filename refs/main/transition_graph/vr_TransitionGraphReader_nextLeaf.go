package goabnf

func vr_TransitionGraphReader_nextLeaf(tgr *TransitionGraphReader) bool {
	L := tgr.length
	for {
		switch {
		case len(tgr.stack) == L:
			if !vr_TransitionGraphReader_bump(tgr) {
				return false
			}
		case len(tgr.stack) < L:
			if !vr_TransitionGraphReader_pushFirst(tgr, len(tgr.stack)) {
				if !vr_TransitionGraphReader_bump(tgr) {
					return false
				}
			}
		}
		if len(tgr.stack) == L {
			tgr.levelHadAnyPath = true
			return true
		}
	}
}

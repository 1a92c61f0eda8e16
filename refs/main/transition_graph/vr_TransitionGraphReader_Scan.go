package goabnf

func vr_TransitionGraphReader_Scan(tgr *TransitionGraphReader) []byte {
	vr_TransitionGraphReader_prepare(tgr)
	if tgr.mode == CoverageMode(1) {
		vr_TransitionGraphReader_buildCompact(tgr)
		if tgr.prodIdx >= len(tgr.prods) {
			return nil
		}
		out := tgr.prods[tgr.prodIdx]
		tgr.prodIdx++
		return out
	}
	vr_TransitionGraphReader_ensureStaged(tgr)
	if !tgr.hasStaged {
		return nil
	}
	out := make([]byte, len(tgr.staged))
	copy(out, tgr.staged)
	vr_TransitionGraphReader_consumeStaged(tgr)
	return out
}

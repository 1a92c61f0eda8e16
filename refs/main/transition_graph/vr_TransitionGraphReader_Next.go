package goabnf

func vr_TransitionGraphReader_Next(tgr *TransitionGraphReader) bool {
	vr_TransitionGraphReader_prepare(tgr)
	if tgr.mode == CoverageMode(1) {
		vr_TransitionGraphReader_buildCompact(tgr)
		return tgr.prodIdx < len(tgr.prods)
	}
	vr_TransitionGraphReader_ensureStaged(tgr)
	return tgr.hasStaged
}

package goabnf

func vr_TransitionGraphReader_pushFirst(tgr *TransitionGraphReader, d int) bool {
	allowed := vr_TransitionGraphReader_allowedAt(tgr, d)
	if len(allowed) == 0 {
		return false
	}
	node := allowed[0]
	if d >= 1 {
		tgr.usedEdges[vr__edgeStr(tgr.stack[d-1].node, node)]++
	}
	tgr.stack = append(tgr.stack, pathFrame{node: node, cursor: 0, allowed: allowed})
	return true
}

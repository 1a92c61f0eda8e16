package goabnf

func vr_TransitionGraphReader_bump(tgr *TransitionGraphReader) bool {
	for len(tgr.stack) > 0 {
		d := len(tgr.stack) - 1
		f := &tgr.stack[d]
		if d >= 1 {
			tgr.usedEdges[vr__edgeStr(tgr.stack[d-1].node, f.node)]--
		}
		if f.cursor+1 < len(f.allowed) {
			f.cursor++
			f.node = f.allowed[f.cursor]
			if d >= 1 {
				tgr.usedEdges[vr__edgeStr(tgr.stack[d-1].node, f.node)]++
			}
			return true
		}
		tgr.stack = tgr.stack[:d]
	}
	return false
}

package goabnf

func vr_TransitionGraphReader_allowedAt(tgr *TransitionGraphReader, d int) []*Node {
	if d == 0 {
		return tgr.entries
	}
	parent := tgr.stack[d-1].node
	if parent == emptyNode {
		return nil
	}
	var out []*Node
	for _, sc := range parent.Nexts {
		if !tgr.canReach[vr__tgNodeID(sc)] {
			continue
		}
		if tgr.usedEdges[vr__edgeStr(parent, sc)] > 0 {
			continue
		}
		out = append(out, sc)
	}
	return out
}

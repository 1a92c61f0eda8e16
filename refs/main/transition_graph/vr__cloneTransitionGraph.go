package goabnf

func vr__cloneTransitionGraph(i, o []*Node) (entrypoints []*Node, endpoints []*Node) {

	originToNewNodes := map[string]cnode{}
	for _, vi := range i {
		if vi == emptyNode {
			continue
		}
		vr__cloneTG(originToNewNodes, vi)
	}

	for _, cnode := range originToNewNodes {
		nnxts := make([]*Node, 0, len(cnode.origin.Nexts))
		for _, onext := range cnode.origin.Nexts {
			nnxts = append(nnxts, originToNewNodes[onext.ID].cloned)
		}
		cnode.cloned.Nexts = nnxts
	}

	entrypoints = make([]*Node, 0, len(i))
	for _, vi := range i {
		if vi == emptyNode {
			entrypoints = append(entrypoints, emptyNode)
			continue
		}
		entrypoints = append(entrypoints, originToNewNodes[vi.ID].cloned)
	}
	endpoints = make([]*Node, 0, len(o))
	for _, vo := range o {
		if vo == emptyNode {
			endpoints = append(endpoints, emptyNode)
			continue
		}
		endpoints = append(endpoints, originToNewNodes[vo.ID].cloned)
	}
	return
}

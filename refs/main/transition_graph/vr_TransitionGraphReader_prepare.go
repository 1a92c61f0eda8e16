package goabnf

func vr_TransitionGraphReader_prepare(tgr *TransitionGraphReader) {
	if tgr.prepared {
		return
	}
	tgr.prepared = true
	tgr.endSet = map[string]bool{}
	for _, e := range tgr.tg.Endpoints {
		tgr.endSet[vr__tgNodeID(e)] = true
	}
	tgr.usedEdges = map[string]int{}

	all := map[string]*Node{}
	var collect func(n *Node)
	collect = func(n *Node) {
		id := vr__tgNodeID(n)
		if _, ok := all[id]; ok {
			return
		}
		all[id] = n
		if n == emptyNode {
			return
		}
		for _, s := range n.Nexts {
			collect(s)
		}
	}
	for _, e := range tgr.tg.Entrypoints {
		collect(e)
	}
	tgr.all = all

	tgr.canReach = map[string]bool{}
	for changed := true; changed; {
		changed = false
		for id, n := range all {
			if tgr.canReach[id] || !vr__producing(n) {
				continue
			}
			ok := tgr.endSet[id]
			if !ok && n != emptyNode {
				for _, sc := range n.Nexts {
					if vr__producing(sc) && tgr.canReach[vr__tgNodeID(sc)] {
						ok = true
						break
					}
				}
			}
			if ok {
				tgr.canReach[id] = true
				changed = true
			}
		}
	}

	for _, e := range tgr.tg.Entrypoints {
		if vr__producing(e) && tgr.canReach[vr__tgNodeID(e)] {
			tgr.entries = append(tgr.entries, e)
		}
	}
}

package goabnf

import sort "sort"

func vr_TransitionGraphReader_buildCompact(tgr *TransitionGraphReader) {
	if tgr.builtCompact {
		return
	}
	tgr.builtCompact = true

	viable := func(n *Node) []*Node {
		if n == emptyNode {
			return nil
		}
		var out []*Node
		for _, sc := range n.Nexts {
			if vr__producing(sc) && tgr.canReach[vr__tgNodeID(sc)] {
				out = append(out, sc)
			}
		}
		return out
	}

	predEntry := map[string]*Node{}
	nodeByID := map[string]*Node{}
	discOrder := map[string]int{}
	var disc []*Node
	type edge struct{ u, w *Node }
	var allEdges []edge
	seenEdge := map[string]bool{}
	var queue []*Node
	see := func(n *Node) {
		id := vr__tgNodeID(n)
		if _, ok := predEntry[id]; ok {
			return
		}
		predEntry[id] = n
		nodeByID[id] = n
		discOrder[id] = len(disc)
		disc = append(disc, n)
		queue = append(queue, n)
	}
	for _, e := range tgr.entries {
		see(e)
	}
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		for _, sc := range viable(n) {
			sid := vr__tgNodeID(sc)
			ek := vr__tgNodeID(n) + ">" + sid
			if !seenEdge[ek] {
				seenEdge[ek] = true
				allEdges = append(allEdges, edge{n, sc})
			}
			if _, ok := predEntry[sid]; !ok {
				predEntry[sid] = n
				nodeByID[sid] = sc
				discOrder[sid] = len(disc)
				disc = append(disc, sc)
				queue = append(queue, sc)
			}
		}
	}

	revAdj := map[string][]*Node{}
	for _, n := range disc {
		for _, sc := range viable(n) {
			sid := vr__tgNodeID(sc)
			revAdj[sid] = append(revAdj[sid], n)
		}
	}
	succEnd := map[string]*Node{}
	var q2 []*Node
	for _, n := range disc {
		if tgr.endSet[vr__tgNodeID(n)] {
			succEnd[vr__tgNodeID(n)] = n
			q2 = append(q2, n)
		}
	}
	for len(q2) > 0 {
		n := q2[0]
		q2 = q2[1:]
		for _, p := range revAdj[vr__tgNodeID(n)] {
			pid := vr__tgNodeID(p)
			if _, ok := succEnd[pid]; !ok {
				succEnd[pid] = n
				q2 = append(q2, p)
			}
		}
	}

	entryPath := func(u *Node) []*Node {
		var rev []*Node
		cur := u
		for {
			rev = append(rev, cur)
			id := vr__tgNodeID(cur)
			p := predEntry[id]
			if vr__tgNodeID(p) == id {
				break
			}
			cur = p
		}
		for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
			rev[i], rev[j] = rev[j], rev[i]
		}
		return rev
	}
	endPath := func(w *Node) []*Node {
		var out []*Node
		cur := w
		for {
			out = append(out, cur)
			id := vr__tgNodeID(cur)
			sc := succEnd[id]
			if vr__tgNodeID(sc) == id {
				break
			}
			cur = sc
		}
		return out
	}

	coveredV := map[string]bool{}
	coveredE := map[string]bool{}

	nextVal := map[string]int32{}

	markWalk := func(w []*Node) {
		for i, n := range w {
			coveredV[vr__tgNodeID(n)] = true
			if i+1 < len(w) {
				coveredE[vr__tgNodeID(n)+">"+vr__tgNodeID(w[i+1])] = true
			}
		}
	}
	emit := func(w []*Node, force bool) bool {
		va := make([]int32, len(w))
		claimed := map[string]int32{}
		newCount := 0
		for p, n := range w {
			id := vr__tgNodeID(n)
			_, vt := vr__nodeEmit(n, 0)
			if vt < 1 {
				vt = 1
			}
			claim := nextVal[id] + claimed[id]
			if claim < vt {
				va[p] = claim
				claimed[id]++
				newCount++
			} else {
				va[p] = 0
			}
		}
		if !force && newCount == 0 {
			return false
		}
		for id, c := range claimed {
			nextVal[id] += c
		}
		var bs []byte
		for p, n := range w {
			b, _ := vr__nodeEmit(n, va[p])
			bs = append(bs, b...)
		}
		tgr.prods = append(tgr.prods, bs)
		return true
	}

	var walks [][]*Node

	sort.SliceStable(allEdges, func(i, j int) bool {
		ui, uj := discOrder[vr__tgNodeID(allEdges[i].u)], discOrder[vr__tgNodeID(allEdges[j].u)]
		if ui != uj {
			return ui < uj
		}
		return discOrder[vr__tgNodeID(allEdges[i].w)] < discOrder[vr__tgNodeID(allEdges[j].w)]
	})
	for _, e := range allEdges {
		ek := vr__tgNodeID(e.u) + ">" + vr__tgNodeID(e.w)
		if coveredE[ek] {
			continue
		}
		if _, ok := succEnd[vr__tgNodeID(e.w)]; !ok {
			continue
		}
		w := append(entryPath(e.u), endPath(e.w)...)
		walks = append(walks, w)
		emit(w, true)
		markWalk(w)
	}

	for _, v := range disc {
		id := vr__tgNodeID(v)
		if coveredV[id] {
			continue
		}
		if _, ok := succEnd[id]; !ok {
			continue
		}
		var w []*Node
		if tgr.endSet[id] {
			w = entryPath(v)
		} else {
			ep := endPath(v)
			w = append(entryPath(v), ep[1:]...)
		}
		walks = append(walks, w)
		emit(w, true)
		markWalk(w)
	}

	for _, w := range walks {
		for emit(w, false) {
		}
	}
}

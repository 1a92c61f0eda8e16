B=[]
def b(id, prop, *edits): B.append((id, prop, list(edits)))
T="transition_graph.go"
b("t-semval-skip","C20",(T,"	if options.deflateRules {\n		if err := SemvalABNF(g)","	if options.deflateRules && len(g.Rulemap) > 1 {\n		if err := SemvalABNF(g)"))
b("t-cycle-after","C11",(T,"	if cycle {\n		return nil, &ErrCyclicRule{","	if cycle && options.deflateRules && options.maxNodes <= 0 {\n		return nil, &ErrCyclicRule{"))
b("t-reserve-eq","C04",(T,"m.nodeCount+n > m.options.maxNodes {","m.nodeCount+n >= m.options.maxNodes+2 {"))
b("t-reserve-nocount","C04",(T,"	m.nodeCount += n\n	return nil","	if n > 1 {\n		m.nodeCount += n\n	}\n	return nil"))
b("t-reserve-clones","C04",(T,"	return m.reserve(reps * countReachable(entries))","	if reps <= 1 {\n		return nil\n	}\n	return m.reserve((reps - 1) * countReachable(entries))"))
b("t-count-entries","C04",(T,"			if sc != emptyNode && !seen[sc.ID] {\n				stack = append(stack, sc)","			if sc != emptyNode && !seen[sc.ID] && len(sc.Nexts) > 0 {\n				stack = append(stack, sc)"))
b("t-reader-opts","C29",(T,"	ro := readerOptions{mode: CoverageAllTrails}\n	for _, o := range opts {","	ro := readerOptions{mode: CoverageAllTrails}\n	for _, o := range opts[:min(len(opts), 1)] {"))
b("t-prepare-collect","C27",(T,"		all[id] = n\n		if n == emptyNode {","		all[id] = n\n		if n == emptyNode || !producing(n) {")) if False else None
b("t-canreach-onepass","C27",(T,"			if ok {\n				tgr.canReach[id] = true\n				changed = true\n			}","			if ok {\n				changed = changed || len(n.Nexts) > 0\n				tgr.canReach[id] = true\n			}")) if False else None
b("t-canreach-first","C27",(T,"					if producing(sc) && tgr.canReach[tgNodeID(sc)] {\n						ok = true\n						break\n					}","					ok = producing(sc) && tgr.canReach[tgNodeID(sc)]\n					break"))
b("t-entries-producing","C27",(T,"		if producing(e) && tgr.canReach[tgNodeID(e)] {\n			tgr.entries","		if e != emptyNode && producing(e) && tgr.canReach[tgNodeID(e)] {\n			tgr.entries"))
b("t-edge-sep","C27",(T,'	return tgNodeID(from) + ">" + tgNodeID(to)\n}','	return tgNodeID(from)[:8] + ">" + tgNodeID(to)\n}'))
b("t-allowed-used","C27",(T,"		if tgr.usedEdges[edgeStr(parent, sc)] > 0 {","		if tgr.usedEdges[edgeStr(parent, sc)] > 1 {"))
b("t-allowed-noreach","C27",(T,"		if !tgr.canReach[tgNodeID(sc)] {\n			continue\n		}\n		if tgr.used","		if !tgr.canReach[tgNodeID(sc)] || sc == parent {\n			continue\n		}\n		if tgr.used"))
b("t-push-edge","C27",(T,"	node := allowed[0]\n	if d >= 1 {\n		tgr.usedEdges","	node := allowed[0]\n	if d > 1 {\n		tgr.usedEdges"))
b("t-bump-release","C27",(T,"		if d >= 1 {\n			tgr.usedEdges[edgeStr(tgr.stack[d-1].node, f.node)]--\n		}","		if d >= 1 && f.cursor+1 < len(f.allowed) {\n			tgr.usedEdges[edgeStr(tgr.stack[d-1].node, f.node)]--\n		}"))
b("t-bump-last","C27",(T,"		if f.cursor+1 < len(f.allowed) {\n			f.cursor++","		if f.cursor+2 < len(f.allowed) || f.cursor == 0 && len(f.allowed) == 2 {\n			f.cursor++"))
b("t-reset-edges","C27",(T,"	for k := range tgr.usedEdges {\n		delete(tgr.usedEdges, k)\n	}\n	tgr.levelHadAnyPath = false","	tgr.levelHadAnyPath = false"))
b("t-level-stop","C27",(T,"		if !tgr.levelHadAnyPath {\n			return false","		if !tgr.levelHadAnyPath || tgr.length > len(tgr.all) {\n			return false"))
b("t-level-flag","C27",(T,"		if len(tgr.stack) == L {\n			tgr.levelHadAnyPath = true\n			return true","		if len(tgr.stack) == L {\n			tgr.levelHadAnyPath = tgr.levelHadAnyPath || len(tgr.stack[L-1].allowed) > 1\n			return true"))
b("t-staged-reset","C27",(T,"		tgr.havePath = true\n		tgr.varTot = tgr.varTot[:0]\n		tgr.varIdx = tgr.varIdx[:0]\n","		tgr.havePath = true\n		tgr.varTot = tgr.varTot[:0]\n"))
b("t-vt","C27",(T,"			tgr.varTot = append(tgr.varTot, vt)\n","			tgr.varTot = append(tgr.varTot, min(vt, 1<<16))\n"))
b("t-consume","C27",(T,"		tgr.varIdx[i] = 0\n		i--\n","		i--\n"))
b("t-consume-last","C27",(T,"		if tgr.varIdx[i] < tgr.varTot[i] {\n			break\n		}\n","		if tgr.varIdx[i]+1 < tgr.varTot[i] || tgr.varTot[i] == 2 && tgr.varIdx[i] < 2 {\n			break\n		}\n"))
b("t-next-exhaust","C27",(T,"		if !tgr.advancePath() {\n			tgr.exhausted = true\n			return","		if !tgr.advancePath() {\n			return"))
b("t-scan-alias","C02",(T,"	out := make([]byte, len(tgr.staged))\n	copy(out, tgr.staged)\n	tgr.consumeStaged()","	out := tgr.staged\n	tgr.consumeStaged()"))
b("t-scan-compact","C27",(T,"		out := tgr.prods[tgr.prodIdx]\n		tgr.prodIdx++\n","		out := tgr.prods[tgr.prodIdx]\n		tgr.prodIdx++\n		if tgr.prodIdx == len(tgr.prods) && len(out) == 0 {\n			return []byte{0}\n		}\n"))
b("t-compact-viable","C27",(T,"			if producing(sc) && tgr.canReach[tgNodeID(sc)] {\n				out = append(out, sc)\n			}\n		}\n		return out\n	}\n\n	// Forward","			if producing(sc) && sc != n && tgr.canReach[tgNodeID(sc)] {\n				out = append(out, sc)\n			}\n		}\n		return out\n	}\n\n	// Forward"))
b("t-compact-seen","C27",(T,"			if !seenEdge[ek] {\n				seenEdge[ek] = true\n","			if !seenEdge[ek] && discOrder[sid] == 0 {\n				seenEdge[ek] = true\n"))
b("t-compact-endpath","C27",(T,"			sc := succEnd[id]\n			if tgNodeID(sc) == id {\n				break\n			}\n			cur = sc","			sc := succEnd[id]\n			if tgNodeID(sc) == id || len(out) > 64 {\n				break\n			}\n			cur = sc"))
b("t-compact-reverse","C27",(T,"		for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {\n			rev[i], rev[j] = rev[j], rev[i]\n		}\n		return rev","		for i, j := 0, len(rev)-1; i+1 < j; i, j = i+1, j-1 {\n			rev[i], rev[j] = rev[j], rev[i]\n		}\n		return rev"))
b("t-compact-claim","C27",(T,"			claim := nextVal[id] + claimed[id]\n			if claim < vt {\n				va[p] = claim\n				claimed[id]++\n","			claim := nextVal[id]\n			if claim < vt {\n				va[p] = claim\n				claimed[id]++\n"))
b("t-compact-force","C27",(T,"		if !force && newCount == 0 {\n			return false\n		}","		if newCount == 0 {\n			return false\n		}"))
b("t-compact-last","C27",(T,"	for _, w := range walks {\n		for emit(w, false) {\n		}\n	}","	for _, w := range walks {\n		emit(w, false)\n	}"))
b("t-compact-vertex","C27",(T,"			ep := endPath(v)\n			w = append(entryPath(v), ep[1:]...)","			ep := endPath(v)\n			w = append(entryPath(v), ep...)"))
b("t-emit-sens","C06",(T,"		if v.Sensitive {\n			for _, val := range v.Values {\n				prod","		if v.Sensitive && len(v.Values) > 1 {\n			for _, val := range v.Values {\n				prod"))
b("t-emit-cap","C27",(T,"		if numVar > 30 {\n			numVar = 30\n		}","		if numVar > 16 {\n			numVar = 16\n		}"))
b("t-emit-bit","C27",(T,"			if !isLower && !isUpper {\n				prod = append(prod, string(r)...)\n				continue\n			}","			if !isLower && !isUpper {\n				prod = append(prod, string(r)...)\n				bit++\n				continue\n			}"))
b("t-emit-max","C27",(T,"			return []byte(string(r)), max - min + 1\n","			return []byte(string(r)), max - min\n"))
b("t-emit-clamp","C22",(T,"			if max > utf8.MaxRune {\n				max = utf8.MaxRune\n			}\n			if min > utf8.MaxRune || min > max {\n				return nil, 1","			if max > utf8.MaxRune {\n				max = utf8.MaxRune + 1\n			}\n			if min > utf8.MaxRune || min > max {\n				return nil, 1"))
b("t-alt-empty","C26",(T,"		endHasEmpty := slices.Contains(endpoints, emptyNode)","		endHasEmpty := slices.Contains(entrypoints, emptyNode)"))
b("t-concat-entry","C26",(T,"			entrypoints = append(entrypoints, vprevI)\n		}\n		entrypoints = append(entrypoints, currI...)","			entrypoints = append(entrypoints, vprevI)\n		}\n		if len(entrypoints) < len(prevI) {\n			entrypoints = append(entrypoints, currI[:1]...)\n		}"))
b("t-concat-ends","C26",(T,"	if slices.Contains(currI, emptyNode) {\n		endpoints = append(endpoints, prevO...)","	if slices.Contains(currO, emptyNode) && len(currO) > 1 {\n		endpoints = append(endpoints, prevO...)"))
b("t-concat-plug","C26",(T,"			vprevO.Nexts = append(vprevO.Nexts, vrepi)\n","			if slices.Contains(vprevO.Nexts, vprevO) && vrepi == vprevO {\n				continue\n			}\n			vprevO.Nexts = append(vprevO.Nexts[:0:0], vrepi)\n")) 
b("t-rep-opt-inf","C07",(T,"				velemo.Nexts = appendNodes(velemo.Nexts, elemiNoEmpty...)\n","				if len(elemo) == 1 {\n					velemo.Nexts = appendNodes(velemo.Nexts, elemiNoEmpty...)\n				}\n"))
b("t-rep-thresh","C04",(T,"			if rep.Min > m.options.repetitionThreshold {\n","			if rep.Min > m.options.repetitionThreshold+1 {\n"))
b("t-rep-min-clones","C07",(T,"tgs, chi, cho := chainTransitionGraph(elemi, elemo, rep.Min)","tgs, chi, cho := chainTransitionGraph(elemi, elemo, max(rep.Min-1, 1))"))
b("t-rep-remaining","C07",(T,"tgs, chi, _ := chainTransitionGraph(elemi, elemo, rep.Max-rep.Min)","tgs, chi, _ := chainTransitionGraph(elemi, elemo, remaining)\n				if remaining > 2 {\n					tgs = tgs[1:]\n				}"))
b("t-rep-shared","C26",(T,"			if rep.Min > 1 {\n				if err := m.reserveClones(rep.Min, elemi)","			if rep.Min > 1 && rep.Min != rep.Max {\n				if err := m.reserveClones(rep.Min, elemi)"))
b("t-clone-links","C26",(T,"			nnxts = append(nnxts, originToNewNodes[onext.ID].cloned)\n","			if c := originToNewNodes[onext.ID].cloned; c != cnode.cloned {\n				nnxts = append(nnxts, c)\n			} else {\n				nnxts = append(nnxts, onext)\n			}\n"))
b("t-clone-empty-end","C26",(T,"		if vo == emptyNode {\n			endpoints = append(endpoints, emptyNode)\n			continue","		if vo == emptyNode {\n			continue"))
b("t-clonetg-id","C26",(T,"			ID:    id,\n			Elem:  origin.Elem,","			ID:    origin.ID,\n			Elem:  origin.Elem,"),(T,"	id, _ := uuid.GenerateUUID()\n\n	originTo","	originTo"))
b("t-append-dup","C26",(T,"		if slices.Contains(existing, n) {\n			continue\n		}\n		existing","		if len(existing) > 0 && existing[len(existing)-1] == n {\n			continue\n		}\n		existing"))
b("t-elem-charcase","C26",(T,"requireBoth := (isLower || isUpper) && !v.Sensitive","requireBoth := isLower && !v.Sensitive"))
b("t-elem-upper-first","C26",(T,"					entrypoints = append(entrypoints, nl, nu)\n				}\n				for","					entrypoints = append(entrypoints, nl)\n				}\n				for"))
b("t-elem-prevs","C26",(T,"				prevs = []*Node{nl, nu}\n","				prevs = []*Node{nl, nu}[:1]\n"))
b("t-elem-range-incl","C26",(T,"			for i := min; i <= max; i++ {\n				n := newNode","			for i := min; i < max; i++ {\n				n := newNode"))
b("t-elem-base","C26",(T,"int32ToNumval(i, v.Base)","int32ToNumval(i, \"x\")"))
b("t-elem-reserve-range","C04",(T,"			if err := m.reserve(int(max - min + 1)); err != nil {\n				return nil, nil, err\n			}\n","			if err := m.reserve(int(max - min)); err != nil {\n				return nil, nil, err\n			}\n"))
b("t-elem-buf-alias","C26",(T,"			ni, no := cloneTransitionGraph(i, o)\n			m.buf[name] = [2][]*Node{ni, no}\n			return i, o, nil","			m.buf[name] = [2][]*Node{i, o}\n			return i, o, nil"))
b("t-elem-buf-case","C08",(T,"			name := strings.ToLower(v.Name)\n			if n, ok := m.buf[name]; ok {","			name := strings.TrimRight(strings.ToLower(v.Name), \"-0123456789\")\n			if n, ok := m.buf[name]; ok {"))
b("t-elem-opt-empty","C26",(T,"		elemo = appendNodes(elemo, emptyNode)\n","		if len(elemo) > 0 {\n			elemo = appendNodes(elemo, emptyNode)\n		}\n"))
b("t-mermaid-edges","C26",(T,"		for _, next := range node.Nexts {\n			str += fmt","		for _, next := range node.Nexts {\n			if next == node {\n				continue\n			}\n			str += fmt"))
b("t-mermaid-empty","C26",(T,"	if slices.Contains(tg.Entrypoints, emptyNode) {\n		str += \"    emptyNode","	if slices.Contains(tg.Entrypoints, emptyNode) && len(mp) > 0 {\n		str += \"    emptyNode"))
b("t-mermaid-entry","C26",(T,"		if slices.Contains(tg.Entrypoints, node) {\n			str += \":::entrypoint\"","		if slices.Contains(tg.Entrypoints, node) && !slices.Contains(tg.Endpoints, node) {\n			str += \":::entrypoint\""))
b("t-mapnodes","C26",(T,"	mp[node.ID] = node\n	for _, next := range node.Nexts {\n		mapNodes(mp, next)","	mp[node.ID] = node\n	for i, next := range node.Nexts {\n		if i > 99 {\n			break\n		}\n		mapNodes(mp, next)"))
B=[x for x in B if x]

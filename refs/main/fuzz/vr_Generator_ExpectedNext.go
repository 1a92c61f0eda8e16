package goabnf

func vr_Generator_ExpectedNext(g *Generator, prefix []byte) (next []byte, accepts bool, ok bool) {
	type state struct {
		n    *Node
		e, p int
	}
	ready := []state{}
	seen := map[state]bool{}
	push := func(s state) {
		if !seen[s] {
			seen[s] = true
			ready = append(ready, s)
		}
	}
	start := func(n *Node) bool {
		ems, o := vr_Generator_emissions(g, n)
		if !o {
			return false
		}
		for ei, em := range ems {
			if len(em.pos) > 0 {
				push(state{n, ei, 0})
			}
		}
		return true
	}
	for _, e := range g.tg.Entrypoints {
		if e == emptyNode {
			continue
		}
		if !start(e) {
			return nil, false, false
		}
	}

	lastCompletedEndpoint := false
	consumedAll := true
	for idx, b := range prefix {
		next2 := []state{}
		seen2 := map[state]bool{}
		push2 := func(s state) {
			if !seen2[s] {
				seen2[s] = true
				next2 = append(next2, s)
			}
		}
		lastCompletedEndpoint = false
		for _, s := range ready {
			ems, _ := vr_Generator_emissions(g, s.n)
			em := ems[s.e]
			if !vr_octetSet_has(em.pos[s.p], b) {
				continue
			}
			if s.p+1 == len(em.pos) {
				if g.endSet[vr__tgNodeID(s.n)] {
					lastCompletedEndpoint = true
				}
				for _, m := range s.n.Nexts {
					if m == emptyNode {
						continue
					}
					ems2, o := vr_Generator_emissions(g, m)
					if !o {
						return nil, false, false
					}
					for ei, em2 := range ems2 {
						if len(em2.pos) > 0 {
							push2(state{m, ei, 0})
						}
					}
				}
			} else {
				push2(state{s.n, s.e, s.p + 1})
			}
		}
		ready, seen = next2, seen2
		if len(ready) == 0 {
			if idx != len(prefix)-1 {
				consumedAll = false
			}
			break
		}
	}

	if !consumedAll {
		return nil, false, true
	}
	if len(prefix) == 0 {
		accepts = g.endSet[""]
	} else {
		accepts = lastCompletedEndpoint
	}
	var acc octetSet
	for _, s := range ready {
		ems, _ := vr_Generator_emissions(g, s.n)
		acc = vr_octetSet_union(acc, ems[s.e].pos[s.p])
	}
	return vr_octetSet_bytes(acc), accepts, true
}

package goabnf

func vr_Generator_walk(g *Generator, src source, trace *[]traceSeg) []byte {
	out := []byte{}
	if len(g.entries) == 0 {
		return out
	}
	node := g.entries[src.intn(len(g.entries))]

	visits := map[string]int{}
	steps := 0
	for {
		if node != emptyNode && vr__producing(node) {
			_, vt := vr__nodeEmit(node, 0)
			if vt < 1 {
				vt = 1
			}
			var idx int32
			if vt > 1 {
				idx = int32(src.intn(int(vt)))
			}
			b, _ := vr__nodeEmit(node, idx)
			if trace != nil && len(b) > 0 {
				*trace = append(*trace, traceSeg{off: len(out), length: len(b), elem: node.Elem})
			}
			out = append(out, b...)
		}

		if node == emptyNode {
			break
		}

		id := vr__tgNodeID(node)
		atEnd := g.endSet[id]

		var liveAll, liveCapped []*Node
		for _, sc := range node.Nexts {
			if sc == emptyNode || !g.canReach[vr__tgNodeID(sc)] {
				continue
			}
			liveAll = append(liveAll, sc)
			if visits[id+">"+vr__tgNodeID(sc)] < g.maxReps {
				liveCapped = append(liveCapped, sc)
			}
		}
		if len(liveAll) == 0 {
			break
		}

		over := len(out) >= g.maxLength || steps >= g.maxSteps
		terminating := over || len(liveCapped) == 0

		var next *Node
		if atEnd {
			if terminating {
				break
			}

			c := src.intn(len(liveCapped) + 1)
			if c == 0 {
				break
			}
			next = liveCapped[c-1]
		} else if terminating {
			next = vr_Generator_nearestToEnd(g, liveAll)
		} else {
			next = liveCapped[src.intn(len(liveCapped))]
		}

		visits[id+">"+vr__tgNodeID(next)]++
		steps++
		node = next
	}
	return out
}

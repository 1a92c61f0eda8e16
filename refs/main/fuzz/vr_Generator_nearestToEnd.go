package goabnf

func vr_Generator_nearestToEnd(g *Generator, cands []*Node) *Node {
	best := cands[0]
	bestD := g.distToEnd[vr__tgNodeID(best)]
	for _, c := range cands[1:] {
		if d := g.distToEnd[vr__tgNodeID(c)]; d < bestD {
			best, bestD = c, d
		}
	}
	return best
}

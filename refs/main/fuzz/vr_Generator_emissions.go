package goabnf

func vr_Generator_emissions(g *Generator, n *Node) ([]emission, bool) {
	id := vr__tgNodeID(n)
	if g.emitCache == nil {
		g.emitCache = map[string][]emission{}
		g.emitOK = map[string]bool{}
	}
	if e, seen := g.emitCache[id]; seen {
		return e, g.emitOK[id]
	}
	e, ok := vr__nodeEmissions(n)
	g.emitCache[id] = e
	g.emitOK[id] = ok
	return e, ok
}

package goabnf

func vr_gllParser_create(p *gllParser, L slot, u *gssNode, i int, w *gnode, rc int) *gssNode {
	v := vr_gllParser_gssNodeFor(p, L, i, rc)
	e := gssEdge{w: w, to: u}
	if !v.edgeSet[e] {
		v.edgeSet[e] = true
		v.edges = append(v.edges, e)
		for z := range p.popped[v] {
			y := vr_gllParser_getNodeP(p, L, w, z)
			vr_gllParser_add(p, L, u, z.End, y, rc)
		}
	}
	return v
}

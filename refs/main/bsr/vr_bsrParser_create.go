package goabnf

func vr_bsrParser_create(p *bsrParser, ret slot, u *bsrGNode, i, rc int) *bsrGNode {
	v := vr_bsrParser_gssNodeFor(p, ret, i, rc)
	if !v.edgeSet[u] {
		v.edgeSet[u] = true
		v.edges = append(v.edges, u)
		for j := range p.popped[v] {
			vr_bsrParser_record(p, ret, u.pos, i, j)
			vr_bsrParser_add(p, ret, u, j, rc)
		}
	}
	return v
}

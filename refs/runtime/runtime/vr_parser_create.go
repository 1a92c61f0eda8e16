package zz_rt

func vr_parser_create(p *parser, ret int, u *gnode, i, rc int) *gnode {
	v := vr_parser_gssNodeFor(p, ret, i, rc)
	if !v.edgeSet[u] {
		v.edgeSet[u] = true
		v.edges = append(v.edges, u)
		for j := range p.popped[v] {
			vr_parser_record(p, ret, u.pos, i, j)
			vr_parser_add(p, ret, u, j, rc)
		}
	}
	return v
}

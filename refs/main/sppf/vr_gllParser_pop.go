package goabnf

func vr_gllParser_pop(p *gllParser, u *gssNode, i int, z *gnode) {
	if u == p.u0 {
		return
	}
	if p.popped[u] == nil {
		p.popped[u] = map[*gnode]bool{}
	}
	p.popped[u][z] = true
	for _, e := range u.edges {
		y := vr_gllParser_getNodeP(p, u.ret, e.w, z)
		vr_gllParser_add(p, u.ret, e.to, i, y, u.rc)
	}
}

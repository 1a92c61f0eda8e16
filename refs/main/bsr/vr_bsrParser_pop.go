package goabnf

func vr_bsrParser_pop(p *bsrParser, u *bsrGNode, j int) {
	if u == p.u0 {
		return
	}
	if p.popped[u] == nil {
		p.popped[u] = map[int]bool{}
	}
	p.popped[u][j] = true
	for _, v := range u.edges {
		vr_bsrParser_record(p, u.ret, v.pos, u.pos, j)
		vr_bsrParser_add(p, u.ret, v, j, u.rc)
	}
}

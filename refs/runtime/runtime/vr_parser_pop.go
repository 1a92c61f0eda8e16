package zz_rt

func vr_parser_pop(p *parser, u *gnode, j int) {
	if u == p.u0 {
		return
	}
	if p.popped[u] == nil {
		p.popped[u] = map[int]bool{}
	}
	p.popped[u][j] = true
	for _, v := range u.edges {
		vr_parser_record(p, u.ret, v.pos, u.pos, j)
		vr_parser_add(p, u.ret, v, j, u.rc)
	}
}

package zz_rt

func vr_parser_gssNodeFor(p *parser, ret, pos, rc int) *gnode {
	k := gssKey{ret, pos, rc}
	if v, ok := p.gss[k]; ok {
		return v
	}
	v := &gnode{ret: ret, pos: pos, rc: rc, edgeSet: map[*gnode]bool{}}
	p.gss[k] = v
	return v
}

package goabnf

func vr_gllParser_gssNodeFor(p *gllParser, ret slot, pos, rc int) *gssNode {
	k := gssKey{ret, pos, rc}
	if v, ok := p.gss[k]; ok {
		return v
	}
	v := &gssNode{ret: ret, pos: pos, rc: rc, edgeSet: map[gssEdge]bool{}}
	p.gss[k] = v
	return v
}

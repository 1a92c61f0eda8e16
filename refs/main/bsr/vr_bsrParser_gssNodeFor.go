package goabnf

func vr_bsrParser_gssNodeFor(p *bsrParser, ret slot, pos, rc int) *bsrGNode {
	k := gssKey{ret, pos, rc}
	if v, ok := p.gss[k]; ok {
		return v
	}
	v := &bsrGNode{ret: ret, pos: pos, rc: rc, edgeSet: map[*bsrGNode]bool{}}
	p.gss[k] = v
	return v
}

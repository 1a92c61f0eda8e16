package goabnf

func vr_gllParser_findNode(p *gllParser, k nodeKey) *gnode {
	if v, ok := p.nodes[k]; ok {
		return v
	}
	if p.maxNodes > 0 && len(p.nodes) >= p.maxNodes {
		p.aborted = true
	}
	v := &gnode{kind: k.kind, nt: k.nt, Start: k.start, End: k.end}
	p.nodes[k] = v
	return v
}

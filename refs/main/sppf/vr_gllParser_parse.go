package goabnf

func vr_gllParser_parse(p *gllParser) *gnode {
	startNT := p.sg.start
	p.u0 = &gssNode{ret: slot{-1, -1, -1}, pos: 0}
	for ai := range p.sg.nts[startNT].alts {
		vr_gllParser_add(p, slot{startNT, ai, 0}, p.u0, 0, nil, 0)
	}
	for len(p.work) > 0 {
		if p.aborted {
			return nil
		}
		d := p.work[len(p.work)-1]
		p.work = p.work[:len(p.work)-1]
		vr_gllParser_process(p, d)
	}
	key := nodeKey{kind: gnodeKind(0), nt: startNT, start: 0, end: len(p.input)}
	return p.nodes[key]
}

package goabnf

func vr_bsrParser_parse(p *bsrParser) {
	startNT := p.sg.start
	p.u0 = &bsrGNode{ret: slot{-1, -1, -1}, pos: 0, edgeSet: map[*bsrGNode]bool{}}
	for ai := range p.sg.nts[startNT].alts {
		vr_bsrParser_add(p, slot{startNT, ai, 0}, p.u0, 0, 0)
	}
	for len(p.work) > 0 {
		if p.aborted {
			return
		}
		d := p.work[len(p.work)-1]
		p.work = p.work[:len(p.work)-1]
		vr_bsrParser_process(p, d)
	}
}

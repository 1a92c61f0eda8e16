package goabnf

func vr_gllParser_addRepAlts(p *gllParser, ntID int, v *gssNode, i, rc int) {
	nt := p.sg.nts[ntID]
	if rc >= nt.repMin {
		vr_gllParser_add(p, slot{ntID, 0, 0}, v, i, nil, rc)
	}
	if nt.repMax == int(-1) || rc < nt.repMax {
		vr_gllParser_add(p, slot{ntID, 1, 0}, v, i, nil, rc)
	}
}

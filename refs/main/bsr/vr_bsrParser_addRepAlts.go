package goabnf

func vr_bsrParser_addRepAlts(p *bsrParser, ntID int, v *bsrGNode, i, rc int) {
	nt := p.sg.nts[ntID]
	if rc >= nt.repMin {
		vr_bsrParser_add(p, slot{ntID, 0, 0}, v, i, rc)
	}
	if nt.repMax == int(-1) || rc < nt.repMax {
		vr_bsrParser_add(p, slot{ntID, 1, 0}, v, i, rc)
	}
}

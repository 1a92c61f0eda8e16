package goabnf

func vr_bsrParser_process(p *bsrParser, d bsrDesc) {
	L, u, i, rc := d.L, d.u, d.i, d.rc
	for {
		prod := p.sg.nts[L.nt].alts[L.alt]
		if L.dot == len(prod) {
			vr_bsrParser_pop(p, u, i)
			return
		}
		s := prod[L.dot]
		if s.kind == symKind(0) {
			ret := slot{L.nt, L.alt, L.dot + 1}
			v := vr_bsrParser_create(p, ret, u, i, rc)
			if p.sg.nts[s.nt].isRep {
				childRC := 0
				if s.nt == L.nt {
					childRC = vr__capRC(rc, p.sg.nts[s.nt])
				}
				vr_bsrParser_addRepAlts(p, s.nt, v, i, childRC)
			} else {
				for ai := range p.sg.nts[s.nt].alts {
					vr_bsrParser_add(p, slot{s.nt, ai, 0}, v, i, 0)
				}
			}
			return
		}
		j := vr_bsrParser_matchTerm(p, s, i)
		if j < 0 {
			return
		}
		next := slot{L.nt, L.alt, L.dot + 1}
		vr_bsrParser_record(p, next, u.pos, i, j)
		i = j
		L = next
	}
}

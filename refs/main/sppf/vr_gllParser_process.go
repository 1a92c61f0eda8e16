package goabnf

func vr_gllParser_process(p *gllParser, d descriptor) {
	L, u, i, w, rc := d.L, d.u, d.i, d.w, d.rc
	for {
		prod := p.sg.nts[L.nt].alts[L.alt]
		if L.dot == len(prod) {
			z := w
			if z == nil {
				z = vr_gllParser_getNodeT(p, i, i)
			}
			vr_gllParser_pop(p, u, i, z)
			return
		}
		s := prod[L.dot]
		if s.kind == symKind(0) {
			ret := slot{L.nt, L.alt, L.dot + 1}

			v := vr_gllParser_create(p, ret, u, i, w, rc)
			if p.sg.nts[s.nt].isRep {

				childRC := 0
				if s.nt == L.nt {
					childRC = vr__capRC(rc, p.sg.nts[s.nt])
				}
				vr_gllParser_addRepAlts(p, s.nt, v, i, childRC)
			} else {
				for ai := range p.sg.nts[s.nt].alts {
					vr_gllParser_add(p, slot{s.nt, ai, 0}, v, i, nil, 0)
				}
			}
			return
		}
		j := vr_gllParser_matchTerm(p, s, i)
		if j < 0 {
			vr_gllParser_noteFail(p, i, s)
			return
		}
		cR := vr_gllParser_getNodeT(p, i, j)
		next := slot{L.nt, L.alt, L.dot + 1}
		w = vr_gllParser_getNodeP(p, next, w, cR)
		i = j
		L = next
	}
}

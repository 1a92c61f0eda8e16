package goabnf

func vr_bsrParser_record(p *bsrParser, L slot, l, k, r int) {
	prod := p.sg.nts[L.nt].alts[L.alt]
	if L.dot >= 2 || L.dot == len(prod) {
		e := bsrElem{L, l, k, r}
		if p.set[e] {
			return
		}
		if p.maxElems > 0 && len(p.set) >= p.maxElems {
			p.aborted = true
			return
		}
		p.set[e] = true
	}
}

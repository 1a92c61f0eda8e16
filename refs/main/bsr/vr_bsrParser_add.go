package goabnf

func vr_bsrParser_add(p *bsrParser, L slot, u *bsrGNode, i, rc int) {
	d := bsrDesc{L, u, i, rc}
	if p.seen[d] {
		return
	}
	p.seen[d] = true
	p.work = append(p.work, d)
}

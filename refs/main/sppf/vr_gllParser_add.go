package goabnf

func vr_gllParser_add(p *gllParser, L slot, u *gssNode, i int, w *gnode, rc int) {
	d := descriptor{L, u, i, w, rc}
	if p.seen[d] {
		return
	}
	p.seen[d] = true
	p.work = append(p.work, d)
}

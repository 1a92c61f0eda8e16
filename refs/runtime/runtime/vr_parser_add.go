package zz_rt

func vr_parser_add(p *parser, L int, u *gnode, i, rc int) {
	d := desc{L: L, i: i, rc: rc, u: u}
	if p.seen[d] {
		return
	}
	p.seen[d] = true
	p.work = append(p.work, d)
}

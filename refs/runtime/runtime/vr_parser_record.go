package zz_rt

func vr_parser_record(p *parser, L, l, k, r int) {
	si := slotInfo[L]
	if si.dot >= 2 || si.dot == si.plen {
		e := bsrElem{L, l, k, r}
		if p.set[e] {
			return
		}
		if int(4194304) > 0 && len(p.set) >= int(4194304) {
			p.aborted = true
			return
		}
		p.set[e] = true
	}
}

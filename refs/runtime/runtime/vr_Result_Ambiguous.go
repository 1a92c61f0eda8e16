package zz_rt

func vr_Result_Ambiguous(r *Result) bool {
	if !vr_Result_Valid(r) {
		return false
	}
	visited := map[nodeID]bool{}
	var symAmb func(nt, l, rr int) bool
	var interAmb func(sl, l, rr int) bool
	var elemAmb func(sl, l, k, rr int) bool
	var symOf func(s qSym, a, b int) bool
	symOf = func(s qSym, a, b int) bool {
		if s.kind == 0 {
			return symAmb(s.nt, a, b)
		}
		return false
	}
	elemAmb = func(sl, l, k, rr int) bool {
		si := slotInfo[sl]
		prod := qNTs[si.nt].alts[si.alt]
		if symOf(prod[si.dot-1], k, rr) {
			return true
		}
		switch {
		case si.dot == 1:
			return false
		case si.dot == 2:
			return symOf(prod[0], l, k)
		default:
			return interAmb(sl-1, l, k)
		}
	}
	interAmb = func(sl, l, rr int) bool {
		id := nodeID{sl: sl, nt: -1, l: l, r: rr}
		if visited[id] {
			return false
		}
		visited[id] = true
		ks := r.index[bsrKey{sl, l, rr}]
		if len(ks) > 1 {
			return true
		}
		for _, k := range ks {
			if elemAmb(sl, l, k, rr) {
				return true
			}
		}
		return false
	}
	symAmb = func(nt, l, rr int) bool {
		id := nodeID{sl: -1, nt: nt, l: l, r: rr}
		if visited[id] {
			return false
		}
		visited[id] = true
		packs := 0
		for _, sl := range ntComplete[nt] {
			packs += len(r.index[bsrKey{sl, l, rr}])
		}
		if packs > 1 {
			return true
		}
		for _, sl := range ntComplete[nt] {
			for _, k := range r.index[bsrKey{sl, l, rr}] {
				if elemAmb(sl, l, k, rr) {
					return true
				}
			}
		}
		return false
	}
	return symAmb(0, 0, r.n)
}

package goabnf

func vr_BSRForest_Ambiguous(f *BSRForest) bool {
	if !vr_BSRForest_Valid(f) {
		return false
	}
	visited := map[bsrNodeID]bool{}

	var symAmb func(nt, l, r int) bool
	var interAmb func(sl slot, l, r int) bool
	var elemAmb func(sl slot, l, k, r int) bool

	symOf := func(s ssym, a, b int) bool {
		if s.kind == symKind(0) {
			return symAmb(s.nt, a, b)
		}
		return false
	}
	elemAmb = func(sl slot, l, k, r int) bool {
		prod := f.sg.nts[sl.nt].alts[sl.alt]
		if symOf(prod[sl.dot-1], k, r) {
			return true
		}
		switch sl.dot {
		case 1:
			return false
		case 2:
			return symOf(prod[0], l, k)
		default:
			return interAmb(slot{sl.nt, sl.alt, sl.dot - 1}, l, k)
		}
	}
	interAmb = func(sl slot, l, r int) bool {
		id := bsrNodeID{inter: true, slot: sl, l: l, r: r}
		if visited[id] {
			return false
		}
		visited[id] = true
		ks := f.index[bsrKey{sl, l, r}]
		if len(ks) > 1 {
			return true
		}
		for _, k := range ks {
			if elemAmb(sl, l, k, r) {
				return true
			}
		}
		return false
	}
	symAmb = func(nt, l, r int) bool {
		id := bsrNodeID{nt: nt, l: l, r: r}
		if visited[id] {
			return false
		}
		visited[id] = true
		packs := 0
		for ai, prod := range f.sg.nts[nt].alts {
			sl := slot{nt, ai, len(prod)}
			ks := f.index[bsrKey{sl, l, r}]
			packs += len(ks)
		}
		if packs > 1 {
			return true
		}
		for ai, prod := range f.sg.nts[nt].alts {
			sl := slot{nt, ai, len(prod)}
			for _, k := range f.index[bsrKey{sl, l, r}] {
				if elemAmb(sl, l, k, r) {
					return true
				}
			}
		}
		return false
	}
	return symAmb(f.start, 0, f.n)
}

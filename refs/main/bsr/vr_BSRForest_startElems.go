package goabnf

func vr_BSRForest_startElems(f *BSRForest) (slot, []int, bool) {
	for ai, prod := range f.sg.nts[f.start].alts {
		s := slot{f.start, ai, len(prod)}
		if ks := f.index[bsrKey{s, 0, f.n}]; len(ks) > 0 {
			return s, ks, true
		}
	}
	return slot{}, nil, false
}

package goabnf

func vr_BSRForest_Valid(f *BSRForest) bool {
	for ai, prod := range f.sg.nts[f.start].alts {
		s := slot{f.start, ai, len(prod)}
		if len(f.index[bsrKey{s, 0, f.n}]) > 0 {
			return true
		}
	}
	return false
}

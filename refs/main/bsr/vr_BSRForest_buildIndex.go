package goabnf

func vr_BSRForest_buildIndex(f *BSRForest) {
	f.index = make(map[bsrKey][]int, len(f.set))
	for e := range f.set {
		k := bsrKey{e.slot, e.l, e.r}
		f.index[k] = append(f.index[k], e.k)
	}
}

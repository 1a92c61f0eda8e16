package goabnf

func vr_BSRForest_collectElem(f *BSRForest, sl slot, l, k, r int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
	prod := f.sg.nts[sl.nt].alts[sl.alt]

	switch sl.dot {
	case 1:

	case 2:
		vr_BSRForest_collectChild(f, prod[0], l, k, out, visited)
	default:
		isl := slot{sl.nt, sl.alt, sl.dot - 1}
		if ks := f.index[bsrKey{isl, l, k}]; len(ks) > 0 {
			vr_BSRForest_collectElem(f, isl, l, ks[0], k, out, visited)
		}
	}
	vr_BSRForest_collectChild(f, prod[sl.dot-1], k, r, out, visited)
}

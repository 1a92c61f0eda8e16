package zz_rt

func vr_Result_collectElem(r *Result, sl, l, k, rr int, out *[]*ParseTree, visited map[nodeID]bool) {
	si := slotInfo[sl]
	prod := qNTs[si.nt].alts[si.alt]
	switch {
	case si.dot == 1:
	case si.dot == 2:
		vr_Result_collectChild(r, prod[0], l, k, out, visited)
	default:
		if ks := r.index[bsrKey{sl - 1, l, k}]; len(ks) > 0 {
			vr_Result_collectElem(r, sl-1, l, ks[0], k, out, visited)
		}
	}
	vr_Result_collectChild(r, prod[si.dot-1], k, rr, out, visited)
}

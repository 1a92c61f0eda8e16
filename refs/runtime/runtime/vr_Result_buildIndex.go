package zz_rt

func vr_Result_buildIndex(r *Result) {
	if r.index != nil {
		return
	}
	r.index = make(map[bsrKey][]int, len(r.set))
	for e := range r.set {
		bk := bsrKey{e.sl, e.l, e.r}
		r.index[bk] = append(r.index[bk], e.k)
	}
}

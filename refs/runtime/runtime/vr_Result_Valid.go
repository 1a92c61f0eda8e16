package zz_rt

func vr_Result_Valid(r *Result) bool {
	vr_Result_buildIndex(r)
	for _, sl := range ntComplete[0] {
		if len(r.index[bsrKey{sl, 0, r.n}]) > 0 {
			return true
		}
	}
	return false
}

package zz_rt

func vr_Result_Elements(r *Result) int { return len(r.set) }

package goabnf

func vr_randSource_intn(s randSource, n int) int {
	if n <= 1 {
		return 0
	}
	return s.r.Intn(n)
}

package goabnf

func vr__mulClamp(n, c int) int {
	if n == 0 {
		return 0
	}
	if c >= 1073741824 {
		return 1073741824
	}
	if p := n * c; p >= 0 && p < 1073741824 {
		return p
	}
	return 1073741824
}

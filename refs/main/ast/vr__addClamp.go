package goabnf

func vr__addClamp(a, b int) int {
	if a >= 1073741824 || b >= 1073741824 {
		return 1073741824
	}
	if s := a + b; s < 1073741824 {
		return s
	}
	return 1073741824
}

package goabnf

func vr__baseRadix(base string) int {
	switch base {
	case "B", "b":
		return 2
	case "D", "d":
		return 10
	case "X", "x":
		return 16
	}
	return 10
}

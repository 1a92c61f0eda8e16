package goabnf

import fmt "fmt"

func vr__quantifier(min, max int) string {
	switch {
	case min == 0 && max == 1:
		return "?"
	case min == 0 && max == int(-1):
		return "*"
	case min == 1 && max == int(-1):
		return "+"
	case max == int(-1):
		return fmt.Sprintf("{%d,}", min)
	case min == max:
		return fmt.Sprintf("{%d}", min)
	case min == 0:
		return fmt.Sprintf("{0,%d}", max)
	default:
		return fmt.Sprintf("{%d,%d}", min, max)
	}
}

package goabnf

import fmt "fmt"

func vr__classEscape(r rune) string {
	if (r >= 'a' && r <= 'z') || (r >= 'A' && r <= 'Z') || (r >= '0' && r <= '9') {
		return string(r)
	}
	return fmt.Sprintf("\\x{%x}", r)
}

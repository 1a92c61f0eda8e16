package goabnf

import fmt "fmt"
import regexp "regexp"
import utf8 "unicode/utf8"

func vr__regescape(r rune) string {
	if !utf8.ValidRune(r) {
		return fmt.Sprintf("\\x{%x}", r)
	}
	return regexp.QuoteMeta(string(r))
}

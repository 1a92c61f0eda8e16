package goabnf

import strings "strings"
import utf8 "unicode/utf8"

func vr__sanitizeComment(s string) string {
	s = strings.ReplaceAll(s, "*/", "* /")

	return strings.Map(func(r rune) rune {
		if r < 0x20 || r == 0x7f || r == utf8.RuneError || r == 0xfeff {
			return ' '
		}
		return r
	}, s)
}

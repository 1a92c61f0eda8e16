package goabnf

import strings "strings"

func vr_reRenderer_write(rr *reRenderer, sb *strings.Builder, s string) {
	if rr.err != nil {
		return
	}
	rr.n += len(s)
	if rr.max > 0 && rr.n > rr.max {
		rr.err = &ErrRegexTooLarge{Max: rr.max}
		return
	}
	sb.WriteString(s)
}

package goabnf

import strconv "strconv"
import strings "strings"

func vr_feval_parseRepeat(e *feval, t *ParseTree) (int, int) {
	s := vr_feval_span(e, t)
	before, after, ok := strings.Cut(s, "*")
	if !ok {
		d, _ := strconv.Atoi(s)
		return d, d
	}
	min, max := 0, int(-1)
	if pre := before; pre != "" {
		min, _ = strconv.Atoi(pre)
	}
	if post := after; post != "" {
		max, _ = strconv.Atoi(post)
	}
	return min, max
}

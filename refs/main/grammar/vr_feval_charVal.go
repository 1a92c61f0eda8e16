package goabnf

import strings "strings"

func vr_feval_charVal(e *feval, t *ParseTree) ElemCharVal {
	s := vr_feval_span(e, t)
	sensitive := false
	if len(s) >= 2 && s[0] == '%' {
		if s[1] == 's' || s[1] == 'S' {
			sensitive = true
		}
		s = s[2:]
	}
	first := strings.IndexByte(s, '"')
	last := strings.LastIndexByte(s, '"')
	value := []rune{}
	if first >= 0 && last > first {
		value = []rune(s[first+1 : last])
	}
	return ElemCharVal{Sensitive: sensitive, Values: value}
}

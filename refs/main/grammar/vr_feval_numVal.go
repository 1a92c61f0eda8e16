package goabnf

import strings "strings"

func vr_feval_numVal(e *feval, t *ParseTree) ElemNumVal {
	s := vr_feval_span(e, t)
	base := "d"
	rest := ""
	if len(s) >= 2 && s[0] == '%' {
		switch s[1] {
		case 'b', 'B':
			base = "b"
		case 'd', 'D':
			base = "d"
		case 'x', 'X':
			base = "x"
		}
		rest = s[2:]
	}
	status := Status(0)
	var elems []string
	if strings.ContainsRune(rest, '-') {
		status = Status(1)
		elems = strings.Split(rest, "-")
	} else {
		elems = strings.Split(rest, ".")
	}

	return ElemNumVal{Base: base, Status: status, Elems: elems}
}

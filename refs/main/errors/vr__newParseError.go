package goabnf

import sort "sort"

func vr__newParseError(input []byte, offset int, expected []string) *ParseError {
	if offset < 0 {
		offset = 0
	}
	if offset > len(input) {
		offset = len(input)
	}
	line, col := 1, 1
	for i := 0; i < offset; i++ {
		if input[i] == '\n' {
			line++
			col = 1
		} else {
			col++
		}
	}
	exp := append([]string(nil), expected...)
	sort.Strings(exp)
	pe := &ParseError{Offset: offset, Line: line, Col: col, Expected: exp}
	if offset < len(input) {
		pe.Found = vr__describeByte(input[offset])

		if input[offset] == '\n' && (offset == 0 || input[offset-1] != '\r') {
			pe.Hint = `input uses bare LF line endings, but ABNF requires CR LF ("\r\n")`
		}
	} else {
		pe.Found = "EOF"
	}
	return pe
}

package goabnf

func vr__charClass(c rune, sensitive bool) reNode {
	if !sensitive {
		switch {
		case c >= 'A' && c <= 'Z':
			lo := c - 'A' + 'a'
			return &reClass{ranges: []reRange{{c, c}, {lo, lo}}}
		case c >= 'a' && c <= 'z':
			up := c - 'a' + 'A'
			return &reClass{ranges: []reRange{{up, up}, {c, c}}}
		}
	}
	return &reClass{ranges: []reRange{{c, c}}}
}

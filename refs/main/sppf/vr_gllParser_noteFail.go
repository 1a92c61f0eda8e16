package goabnf

import fmt "fmt"

func vr_gllParser_noteFail(p *gllParser, i int, s ssym) {
	if i > p.maxPos {
		p.maxPos = i
		p.expected = p.expected[:0]
		p.expectedSeen = nil
	}
	if i != p.maxPos {
		return
	}
	desc := "?"
	if str, ok := s.term.(fmt.Stringer); ok {
		desc = str.String()
	}
	if p.expectedSeen == nil {
		p.expectedSeen = map[string]bool{}
	}
	if !p.expectedSeen[desc] {
		p.expectedSeen[desc] = true
		p.expected = append(p.expected, desc)
	}
}

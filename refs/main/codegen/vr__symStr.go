package goabnf

import strconv "strconv"

func vr__symStr(sg *slotGrammar, s ssym) string {
	switch s.kind {
	case symKind(0):
		n := sg.nts[s.nt]
		if n.ruleName != "" {
			return n.ruleName
		}
		if n.label != "" {
			return n.label
		}
		return "nt" + strconv.Itoa(s.nt)
	case symKind(2):
		return "eps"
	default:
		if s.term != nil {
			return s.term.String()
		}
		return "?"
	}
}

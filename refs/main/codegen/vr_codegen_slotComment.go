package goabnf

import fmt "fmt"
import strings "strings"

func vr_codegen_slotComment(c *codegen, s sInfo) string {
	nt := c.sg.nts[s.nt]
	name := nt.ruleName
	if name == "" {
		name = nt.label
	}
	prod := nt.alts[s.alt]
	parts := make([]string, 0, len(prod)+1)
	for d, sym := range prod {
		if d == s.dot {
			parts = append(parts, ".")
		}
		parts = append(parts, vr__symStr(c.sg, sym))
	}
	if s.dot == len(prod) {
		parts = append(parts, ".")
	}
	return vr__sanitizeComment(strings.TrimSpace(name+" ::= "+strings.Join(parts, " ")) +
		fmt.Sprintf("  (%d,%d,%d)", s.nt, s.alt, s.dot))
}

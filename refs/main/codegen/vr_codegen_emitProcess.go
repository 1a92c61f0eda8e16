package goabnf

import fmt "fmt"
import strings "strings"

func vr_codegen_emitProcess(c *codegen, b *strings.Builder) {
	b.WriteString("\nfunc (p *parser) process(d desc) {\n")
	b.WriteString("\tL, u, i, rc := d.L, d.u, d.i, d.rc\n")
	b.WriteString("\t_ = rc\n")
	b.WriteString("\tfor {\n\t\tswitch L {\n")
	for id, s := range c.slots {
		info := c.sg.nts[s.nt]
		fmt.Fprintf(b, "\t\tcase %d: // %s\n", id, vr_codegen_slotComment(c, s))
		if s.dot == s.plen {
			b.WriteString("\t\t\tp.pop(u, i)\n\t\t\treturn\n")
			continue
		}
		sym := info.alts[s.alt][s.dot]
		nextID := id + 1
		switch sym.kind {
		case symKind(0):
			vr_codegen_emitCall(c, b, s, sym.nt, nextID)
		default:
			vr_codegen_emitTerminal(c, b, sym, nextID)
		}
	}
	b.WriteString("\t\tdefault:\n\t\t\treturn\n")
	b.WriteString("\t\t}\n\t}\n}\n")
}

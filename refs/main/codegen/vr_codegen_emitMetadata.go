package goabnf

import fmt "fmt"
import strings "strings"

func vr_codegen_emitMetadata(c *codegen, b *strings.Builder) {
	b.WriteString("\n// ---- baked metadata (reconstruction queries only) ----\n\n")
	fmt.Fprintf(b, "const gRootName = %q\n", c.root)
	fmt.Fprintf(b, "const gStart = %d\n\n", c.sg.start)

	b.WriteString("var slotInfo = []sInfo{\n")
	for _, s := range c.slots {
		fmt.Fprintf(b, "\t{%d, %d, %d, %d},\n", s.nt, s.alt, s.dot, s.plen)
	}
	b.WriteString("}\n\n")

	b.WriteString("var ntComplete = [][]int{\n")
	for nt := range c.sg.nts {
		b.WriteString("\t{")
		for alt := range c.sg.nts[nt].alts {
			if alt > 0 {
				b.WriteString(", ")
			}
			fmt.Fprintf(b, "%d", vr_codegen_compID(c, nt, alt))
		}
		b.WriteString("},\n")
	}
	b.WriteString("}\n\n")

	b.WriteString("var qNTs = []qNT{\n")
	for _, nt := range c.sg.nts {
		fmt.Fprintf(b, "\t{isRule: %v, ruleName: %q, alts: ", nt.isRule, nt.ruleName)
		if len(nt.alts) == 0 {
			b.WriteString("nil},\n")
			continue
		}
		b.WriteString("[][]qSym{")
		for ai, prod := range nt.alts {
			if ai > 0 {
				b.WriteString(", ")
			}
			b.WriteString("{")
			for si, sym := range prod {
				if si > 0 {
					b.WriteString(", ")
				}
				switch sym.kind {
				case symKind(0):
					fmt.Fprintf(b, "{kind: kNT, nt: %d}", sym.nt)
				case symKind(2):
					b.WriteString("{kind: kEps}")
				default:
					b.WriteString("{kind: kTerm}")
				}
			}
			b.WriteString("}")
		}
		b.WriteString("}},\n")
	}
	b.WriteString("}\n")
}

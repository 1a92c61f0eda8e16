package goabnf

import fmt "fmt"
import strings "strings"

func vr_codegen_emitSeed(c *codegen, b *strings.Builder) {
	b.WriteString("\nfunc (p *parser) seed() {\n")
	for alt := range c.sg.nts[c.sg.start].alts {
		fmt.Fprintf(b, "\tp.add(%d, p.u0, 0, 0)\n", vr_codegen_startID(c, c.sg.start, alt))
	}
	b.WriteString("}\n")
}

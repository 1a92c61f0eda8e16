package goabnf

import fmt "fmt"
import strings "strings"

func vr_codegen_emitCall(c *codegen, b *strings.Builder, s sInfo, callee, retID int) {
	ci := c.sg.nts[callee]
	if len(ci.alts) == 0 {

		b.WriteString("\t\t\treturn\n")
		return
	}
	fmt.Fprintf(b, "\t\t\tv := p.create(%d, u, i, rc)\n", retID)
	if ci.isRep {
		if callee == s.nt {

			if ci.repMax == int(-1) {
				fmt.Fprintf(b, "\t\t\tcrc := rc + 1\n\t\t\tif crc > %d {\n\t\t\t\tcrc = %d\n\t\t\t}\n", ci.repMin, ci.repMin)
			} else {
				b.WriteString("\t\t\tcrc := rc + 1\n")
			}
			fmt.Fprintf(b, "\t\t\tif crc >= %d {\n\t\t\t\tp.add(%d, v, i, crc)\n\t\t\t}\n", ci.repMin, vr_codegen_startID(c, callee, 0))
			if ci.repMax == int(-1) {
				fmt.Fprintf(b, "\t\t\tp.add(%d, v, i, crc)\n", vr_codegen_startID(c, callee, 1))
			} else {
				fmt.Fprintf(b, "\t\t\tif crc < %d {\n\t\t\t\tp.add(%d, v, i, crc)\n\t\t\t}\n", ci.repMax, vr_codegen_startID(c, callee, 1))
			}
		} else {

			if ci.repMin == 0 {
				fmt.Fprintf(b, "\t\t\tp.add(%d, v, i, 0)\n", vr_codegen_startID(c, callee, 0))
			}
			if ci.repMax == int(-1) || 0 < ci.repMax {
				fmt.Fprintf(b, "\t\t\tp.add(%d, v, i, 0)\n", vr_codegen_startID(c, callee, 1))
			}
		}
	} else {
		for alt := range ci.alts {
			fmt.Fprintf(b, "\t\t\tp.add(%d, v, i, 0)\n", vr_codegen_startID(c, callee, alt))
		}
	}
	b.WriteString("\t\t\treturn\n")
}

package goabnf

import fmt "fmt"
import strings "strings"

func vr_codegen_emitTerminal(c *codegen, b *strings.Builder, sym ssym, nextID int) {
	if sym.kind == symKind(2) {
		fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, i)\n", nextID)
		fmt.Fprintf(b, "\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
		return
	}
	if !vr_codegen_emitMatch(c, b, sym) {
		return
	}
	fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, j)\n", nextID)
	fmt.Fprintf(b, "\t\t\ti = j\n\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
}

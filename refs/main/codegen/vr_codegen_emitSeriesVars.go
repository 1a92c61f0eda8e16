package goabnf

import fmt "fmt"
import strings "strings"

func vr_codegen_emitSeriesVars(c *codegen, b *strings.Builder) {
	if len(c.series) == 0 {
		return
	}
	b.WriteString("\n// ---- baked series literals ----\n")
	for i, s := range c.series {
		fmt.Fprintf(b, "var series%d = %s\n", i, s)
	}
}

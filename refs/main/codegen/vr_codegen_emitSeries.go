package goabnf

import fmt "fmt"
import strings "strings"
import utf8 "unicode/utf8"

func vr_codegen_emitSeries(c *codegen, b *strings.Builder, v ElemNumVal) bool {
	var sb strings.Builder
	for _, e := range v.Elems {
		r := vr__numvalToRune(e, v.Base)
		if !utf8.ValidRune(r) {
			b.WriteString("\t\t\treturn // series contains a non-Unicode value\n")
			return false
		}
		sb.WriteRune(r)
	}
	idx := vr_codegen_seriesVar(c, []byte(sb.String()))
	fmt.Fprintf(b, "\t\t\tif i+len(series%d) > len(p.input) || !bytesEqual(p.input[i:i+len(series%d)], series%d) {\n\t\t\t\treturn\n\t\t\t}\n", idx, idx, idx)
	fmt.Fprintf(b, "\t\t\tj := i + len(series%d)\n", idx)
	return true
}

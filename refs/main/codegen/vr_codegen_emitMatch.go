package goabnf

import fmt "fmt"
import strings "strings"

func vr_codegen_emitMatch(c *codegen, b *strings.Builder, s ssym) bool {
	switch v := s.term.(type) {
	case ElemCharVal:
		vr_codegen_emitCharVal(c, b, v)
	case ElemNumVal:
		switch v.Status {
		case Status(1):
			lo := vr__numvalToRune(v.Elems[0], v.Base)
			hi := vr__numvalToRune(v.Elems[1], v.Base)
			b.WriteString("\t\t\tif i >= len(p.input) {\n\t\t\t\treturn\n\t\t\t}\n")
			b.WriteString("\t\t\trv, rs := utf8.DecodeRune(p.input[i:])\n")
			b.WriteString("\t\t\tif rv == utf8.RuneError && rs == 1 {\n\t\t\t\treturn\n\t\t\t}\n")
			fmt.Fprintf(b, "\t\t\tif rv < %d || rv > %d {\n\t\t\t\treturn\n\t\t\t}\n", lo, hi)
			b.WriteString("\t\t\tj := i + rs\n")
		case Status(0):
			return vr_codegen_emitSeries(c, b, v)
		default:
			b.WriteString("\t\t\treturn\n")
			return false
		}
	default:
		b.WriteString("\t\t\treturn\n")
		return false
	}
	return true
}

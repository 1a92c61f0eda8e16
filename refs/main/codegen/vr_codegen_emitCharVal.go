package goabnf

import fmt "fmt"
import strings "strings"

func vr_codegen_emitCharVal(c *codegen, b *strings.Builder, v ElemCharVal) {
	allASCII := true
	for _, r := range v.Values {
		if r > 0x7f {
			allASCII = false
			break
		}
	}
	if allASCII {
		fmt.Fprintf(b, "\t\t\tif i+%d > len(p.input) {\n\t\t\t\treturn\n\t\t\t}\n", len(v.Values))
		for off, r := range v.Values {
			bb := byte(r)
			if v.Sensitive {
				fmt.Fprintf(b, "\t\t\tif p.input[i+%d] != %d {\n\t\t\t\treturn\n\t\t\t}\n", off, bb)
			} else {
				fmt.Fprintf(b, "\t\t\tif foldB(p.input[i+%d]) != %d {\n\t\t\t\treturn\n\t\t\t}\n", off, vr__foldByte(bb))
			}
		}
		fmt.Fprintf(b, "\t\t\tj := i + %d\n", len(v.Values))
		return
	}

	b.WriteString("\t\t\tj := i\n")
	for _, r := range v.Values {
		b.WriteString("\t\t\t{\n")
		b.WriteString("\t\t\t\tif j >= len(p.input) {\n\t\t\t\t\treturn\n\t\t\t\t}\n")
		b.WriteString("\t\t\t\trv, rs := utf8.DecodeRune(p.input[j:])\n")
		b.WriteString("\t\t\t\tif rv == utf8.RuneError && rs == 1 {\n\t\t\t\t\treturn\n\t\t\t\t}\n")
		if v.Sensitive {
			fmt.Fprintf(b, "\t\t\t\tif rv != %d {\n\t\t\t\t\treturn\n\t\t\t\t}\n", r)
		} else {
			fmt.Fprintf(b, "\t\t\t\tif foldR(rv) != %d {\n\t\t\t\t\treturn\n\t\t\t\t}\n", vr__foldRune(r))
		}
		b.WriteString("\t\t\t\tj += rs\n\t\t\t}\n")
	}
}

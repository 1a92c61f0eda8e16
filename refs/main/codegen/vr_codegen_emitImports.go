package goabnf

import strings "strings"

func vr_codegen_emitImports(c *codegen, b *strings.Builder) {
	b.WriteString("import (\n\t\"errors\"\n\t\"math/big\"\n")
	if c.usesUTF8 {
		b.WriteString("\t\"unicode/utf8\"\n")
	}
	b.WriteString(")\n")
}

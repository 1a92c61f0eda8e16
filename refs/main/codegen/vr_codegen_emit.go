package goabnf

import fmt "fmt"
import strings "strings"

func vr_codegen_emit(c *codegen) string {
	vr_codegen_scanUTF8(c)
	var b strings.Builder
	fmt.Fprintf(&b, "// Code generated by go-abnf for root %q. DO NOT EDIT.\n\n", c.root)
	fmt.Fprintf(&b, "package %s\n\n", c.pkg)
	vr_codegen_emitImports(c, &b)
	b.WriteString("«headerBoilerplate»")
	vr_codegen_emitProcess(c, &b)
	vr_codegen_emitSeed(c, &b)
	vr_codegen_emitMetadata(c, &b)
	b.WriteString("«queryBoilerplate»")
	vr_codegen_emitSeriesVars(c, &b)
	return b.String()
}

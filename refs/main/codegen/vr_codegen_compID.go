package goabnf

func vr_codegen_compID(c *codegen, nt, alt int) int {
	return c.idOf[nt][alt] + len(c.sg.nts[nt].alts[alt])
}

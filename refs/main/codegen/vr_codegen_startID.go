package goabnf

func vr_codegen_startID(c *codegen, nt, alt int) int { return c.idOf[nt][alt] }

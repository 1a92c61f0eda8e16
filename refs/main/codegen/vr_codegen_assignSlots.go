package goabnf

func vr_codegen_assignSlots(c *codegen) {
	c.seriesIdx = map[string]int{}
	c.idOf = make([][]int, len(c.sg.nts))
	for nt, info := range c.sg.nts {
		c.idOf[nt] = make([]int, len(info.alts))
		for alt, prod := range info.alts {
			c.idOf[nt][alt] = len(c.slots)
			for dot := 0; dot <= len(prod); dot++ {
				c.slots = append(c.slots, sInfo{nt, alt, dot, len(prod)})
			}
		}
	}
}

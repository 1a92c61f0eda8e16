package goabnf

func vr_cycle_find(c *cycle) {
	for _, v := range c.dg {
		if v.index == 0 {
			vr_cycle_strongconnect(c, v)
		}
	}
}

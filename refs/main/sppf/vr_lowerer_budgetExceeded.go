package goabnf

func vr_lowerer_budgetExceeded(c *lowerer) bool {
	if c.max > 0 && len(c.sg.nts) >= c.max {
		c.over = true
	}
	return c.over
}

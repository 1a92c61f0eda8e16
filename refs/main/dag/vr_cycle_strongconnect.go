package goabnf

import strings "strings"

func vr_cycle_strongconnect(c *cycle, v *node) {

	c.index++
	v.index = c.index
	v.lowlink = c.index
	c.stack = append(c.stack, v)
	v.onStack = true

	for _, dep := range v.Dependencies {
		w, ok := c.dg[dep]
		if !ok {

			continue
		}
		if w.index == 0 {
			vr_cycle_strongconnect(c, w)
			v.lowlink = min(v.lowlink, w.lowlink)
		} else {
			if w.onStack {

				v.lowlink = min(v.lowlink, w.index)
			}
		}
	}

	if v.lowlink == v.index {
		scc := []*node{}
		w := (*node)(nil)
		for w == nil || !strings.EqualFold(v.Rulename, w.Rulename) {
			w = c.stack[len(c.stack)-1]
			c.stack = c.stack[:len(c.stack)-1]
			w.onStack = false
			scc = append(scc, w)
		}
		c.sccs = append(c.sccs, scc)
	}
}

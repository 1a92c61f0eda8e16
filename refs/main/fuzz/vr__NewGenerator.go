package goabnf

import fmt "fmt"

func vr__NewGenerator(tg *TransitionGraph, opts ...GenOption) (*Generator, error) {
	g := &Generator{
		tg:        tg,
		maxLength: 4096,
		maxReps:   32,
		maxSteps:  100_000,
	}
	for _, o := range opts {
		o.apply(g)
	}

	revAdj := map[string][]*Node{}
	nodes := map[string]*Node{}
	var stack []*Node
	for _, e := range tg.Entrypoints {
		if e != emptyNode {
			stack = append(stack, e)
		}
	}
	for len(stack) > 0 {
		n := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		id := vr__tgNodeID(n)
		if _, ok := nodes[id]; ok {
			continue
		}
		nodes[id] = n
		if !vr__producing(n) {
			return nil, fmt.Errorf("transition graph contains an unexpanded rule node %q; build it with WithDeflateRules(true)", n.Elem.String())
		}
		for _, sc := range n.Nexts {
			if sc == emptyNode {
				continue
			}
			revAdj[vr__tgNodeID(sc)] = append(revAdj[vr__tgNodeID(sc)], n)
			stack = append(stack, sc)
		}
	}

	g.endSet = map[string]bool{}
	g.canReach = map[string]bool{}
	g.distToEnd = map[string]int{}
	var q []string
	for _, e := range tg.Endpoints {
		id := vr__tgNodeID(e)
		g.endSet[id] = true
		if !g.canReach[id] {
			g.canReach[id] = true
			g.distToEnd[id] = 0
			q = append(q, id)
		}
	}
	for len(q) > 0 {
		id := q[0]
		q = q[1:]
		for _, p := range revAdj[id] {
			pid := vr__tgNodeID(p)
			if g.canReach[pid] {
				continue
			}
			g.canReach[pid] = true
			g.distToEnd[pid] = g.distToEnd[id] + 1
			q = append(q, pid)
		}
	}

	for _, e := range tg.Entrypoints {
		if g.canReach[vr__tgNodeID(e)] {
			g.entries = append(g.entries, e)
		}
	}
	return g, nil
}

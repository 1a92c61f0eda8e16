package goabnf

func vr__countReachable(entries []*Node) int {
	seen := map[string]bool{}
	stack := make([]*Node, 0, len(entries))
	for _, e := range entries {
		if e != emptyNode {
			stack = append(stack, e)
		}
	}
	for len(stack) > 0 {
		n := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if n == emptyNode || seen[n.ID] {
			continue
		}
		seen[n.ID] = true
		for _, sc := range n.Nexts {
			if sc != emptyNode && !seen[sc.ID] {
				stack = append(stack, sc)
			}
		}
	}
	return len(seen)
}

package goabnf

import slices "slices"

func vr__appendNodes(existing []*Node, news ...*Node) []*Node {
	for _, n := range news {
		if slices.Contains(existing, n) {
			continue
		}
		existing = append(existing, n)
	}
	return existing
}

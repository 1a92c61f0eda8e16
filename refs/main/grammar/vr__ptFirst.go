package goabnf

import slices "slices"

func vr__ptFirst(t *ParseTree, names ...string) *ParseTree {
	for _, c := range t.Children {
		if slices.Contains(names, c.Rule) {
			return c
		}
	}
	return nil
}

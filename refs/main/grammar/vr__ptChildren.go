package goabnf

func vr__ptChildren(t *ParseTree, name string) []*ParseTree {
	var out []*ParseTree
	for _, c := range t.Children {
		if c.Rule == name {
			out = append(out, c)
		}
	}
	return out
}

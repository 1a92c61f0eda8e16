package goabnf

func vr_Forest_Tree(f *Forest) *ParseTree {
	if f.root == nil {
		return nil
	}
	return vr_Forest_emitSymbol(f, f.root, map[*gnode]bool{})
}

package goabnf

func vr__evalForest(input []byte, f *Forest, o *abnfOptions) (*Grammar, error) {
	tree := vr_Forest_Tree(f)
	if tree == nil {
		return nil, ErrNoSolutionFound
	}
	ev := &feval{input: input, o: o}
	return vr_feval_rulelist(ev, tree)
}

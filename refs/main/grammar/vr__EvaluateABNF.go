package goabnf

func vr__EvaluateABNF(input []byte, f *Forest, opts ...ABNFOption) (*Grammar, error) {
	return vr__evalForest(input, f, vr__process(opts...))
}

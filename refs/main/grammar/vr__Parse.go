package goabnf

func vr__Parse(input []byte, grammar *Grammar, rootRulename string) (*Forest, error) {
	return vr__ParseForest(input, grammar, rootRulename)
}

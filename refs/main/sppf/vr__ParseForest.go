package goabnf

func vr__ParseForest(input []byte, grammar *Grammar, rootRulename string, opts ...ForestOption) (*Forest, error) {
	cfg := forestConfig{maxSlots: 65536}
	for _, o := range opts {
		o(&cfg)
	}
	sg, err := vr__compileSlots(grammar, rootRulename, cfg.maxSlots)
	if err != nil {
		return nil, err
	}
	p := &gllParser{
		sg:       sg,
		input:    input,
		nodes:    map[nodeKey]*gnode{},
		gss:      map[gssKey]*gssNode{},
		seen:     map[descriptor]bool{},
		popped:   map[*gssNode]map[*gnode]bool{},
		maxNodes: cfg.maxNodes,
	}
	root := vr_gllParser_parse(p)
	if p.aborted {
		return nil, &ErrForestTooLarge{Max: cfg.maxNodes}
	}
	return &Forest{sg: sg, input: input, rulename: rootRulename, root: root, built: len(p.nodes), maxPos: p.maxPos, expected: p.expected}, nil
}

package goabnf

func vr__ParseBSR(input []byte, grammar *Grammar, rootRulename string, opts ...ForestOption) (*BSRForest, error) {
	cfg := forestConfig{maxSlots: 65536}
	for _, o := range opts {
		o(&cfg)
	}
	sg, err := vr__compileSlots(grammar, rootRulename, cfg.maxSlots)
	if err != nil {
		return nil, err
	}
	p := &bsrParser{
		sg:       sg,
		input:    input,
		set:      map[bsrElem]bool{},
		gss:      map[gssKey]*bsrGNode{},
		seen:     map[bsrDesc]bool{},
		popped:   map[*bsrGNode]map[int]bool{},
		maxElems: cfg.maxNodes,
	}
	vr_bsrParser_parse(p)
	if p.aborted {
		return nil, &ErrForestTooLarge{Max: cfg.maxNodes}
	}
	f := &BSRForest{
		sg:       sg,
		input:    input,
		rulename: rootRulename,
		set:      p.set,
		start:    sg.start,
		n:        len(input),
	}
	vr_BSRForest_buildIndex(f)
	return f, nil
}

package goabnf

func vr_Grammar_TransitionGraph(g *Grammar, rulename string, opts ...TGOption) (*TransitionGraph, error) {

	options := &tgoptions{
		deflateRules:        false,
		deflateNumVals:      false,
		deflateCharVals:     false,
		repetitionThreshold: 256,
		maxNodes:            0,
	}
	for _, opt := range opts {
		opt.apply(options)
	}
	m := &tgmachine{
		options: options,
		grammar: g,
		buf:     map[string][2][]*Node{},
	}

	rule := vr__GetRule(rulename, g.Rulemap)
	if rule == nil {
		return nil, &ErrRuleNotFound{
			Rulename: rulename,
		}
	}

	if options.deflateRules {
		if err := vr__SemvalABNF(g); err != nil {
			return nil, err
		}
	}
	cycle, err := vr_Grammar_RuleContainsCycle(g, rulename)
	if err != nil {
		return nil, err
	}
	if cycle {
		return nil, &ErrCyclicRule{
			Rulename: rulename,
		}
	}

	entrypoints, endpoints, err := vr_tgmachine_altGraph(m, rule.Alternation)
	if err != nil {
		return nil, err
	}
	return &TransitionGraph{
		grammar:     g,
		rulename:    rulename,
		options:     options,
		Entrypoints: entrypoints,
		Endpoints:   endpoints,
	}, nil
}

package goabnf

import fmt "fmt"

func vr__NewASTGenerator(g *Grammar, rule string, opts ...ASTGenOption) (*ASTGenerator, error) {
	start := vr__GetRule(rule, g.Rulemap)
	if start == nil {
		return nil, &ErrRuleNotFound{Rulename: rule}
	}
	ag := &ASTGenerator{
		g:         g,
		start:     start,
		maxDepth:  32,
		maxLen:    4096,
		maxRepeat: 16,
	}
	for _, o := range opts {
		o.apply(ag)
	}

	effective := map[string]*Rule{}
	for n := range g.Rulemap {
		if r := vr__GetRule(n, g.Rulemap); r != nil {
			effective[r.Name] = r
		}
	}
	for n := range coreRules {
		if r := vr__GetRule(n, g.Rulemap); r != nil {
			effective[r.Name] = r
		}
	}
	ag.minCost = make(map[string]int, len(effective))
	for name := range effective {
		ag.minCost[name] = 1073741824
	}
	for changed := true; changed; {
		changed = false
		for name, r := range effective {
			if c := vr_ASTGenerator_costAlt(ag, r.Alternation); c < ag.minCost[name] {
				ag.minCost[name] = c
				changed = true
			}
		}
	}

	seen := map[string]bool{start.Name: true}
	var visitAlt func(Alternation) error
	visitElem := func(e ElemItf) error {
		switch x := e.(type) {
		case ElemRulename:
			r := vr__GetRule(x.Name, g.Rulemap)
			if r == nil {
				return fmt.Errorf("rule %q (reachable from %q) is undefined and cannot be generated", x.Name, rule)
			}
			if seen[r.Name] {
				return nil
			}
			seen[r.Name] = true
			if ag.minCost[r.Name] >= 1073741824 {
				return fmt.Errorf("rule %q (reachable from %q) is non-productive (cannot derive any finite string)", r.Name, rule)
			}
			return visitAlt(r.Alternation)
		case ElemGroup:
			return visitAlt(x.Alternation)
		case ElemOption:
			return visitAlt(x.Alternation)
		}
		return nil
	}
	visitAlt = func(a Alternation) error {
		for _, c := range a.Concatenations {
			for _, rep := range c.Repetitions {
				if err := visitElem(rep.Element); err != nil {
					return err
				}
			}
		}
		return nil
	}
	if ag.minCost[start.Name] >= 1073741824 {
		return nil, fmt.Errorf("rule %q is non-productive (cannot derive any finite string)", rule)
	}
	if err := visitAlt(start.Alternation); err != nil {
		return nil, err
	}
	return ag, nil
}

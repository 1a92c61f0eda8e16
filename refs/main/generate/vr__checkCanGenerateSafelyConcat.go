package goabnf

import strings "strings"

func vr__checkCanGenerateSafelyConcat(g *Grammar, knownRules map[string]struct{}, concat Concatenation) error {
	for _, rep := range concat.Repetitions {

		if rep.Min == 0 {
			continue
		}

		switch elem := rep.Element.(type) {
		case ElemRulename:

			scopeRules := vr__duplicateMap(knownRules)
			for known := range scopeRules {
				if strings.EqualFold(elem.Name, known) {
					return &ErrCyclicRule{
						Rulename: elem.Name,
					}
				}
			}
			rule := vr__GetRule(elem.Name, g.Rulemap)
			scopeRules[elem.Name] = struct{}{}
			if err := vr__checkCanGenerateSafelyAlt(g, scopeRules, rule.Alternation); err != nil {
				if err, ok := err.(*ErrCyclicRule); ok {
					return err
				}
				return &ErrCyclicRule{
					Rulename: elem.Name,
				}
			}

		case ElemGroup:
			if err := vr__checkCanGenerateSafelyAlt(g, knownRules, elem.Alternation); err != nil {
				return err
			}

		case ElemProseVal:
			return ErrHandlingProseVal

		}
	}
	return nil
}

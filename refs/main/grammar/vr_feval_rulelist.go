package goabnf

import slices "slices"

func vr_feval_rulelist(e *feval, t *ParseTree) (*Grammar, error) {
	mp := map[string]*Rule{}
	for _, rc := range vr__ptChildren(t, "rule") {
		rl, definedAs, err := vr_feval_rule(e, rc)
		if err != nil {
			return nil, err
		}
		switch definedAs {
		case "=":
			isCoreRule := vr__GetRule(rl.Name, nil) != nil
			if isCoreRule && !e.o.redefineCore {
				return nil, &ErrCoreRuleModify{CoreRulename: rl.Name}
			}
			if vr__getRuleIn(rl.Name, mp) != nil {
				return nil, &ErrDuplicatedRule{Rulename: rl.Name}
			}
			mp[rl.Name] = rl
		case "=/":
			isCoreRule := vr__GetRule(rl.Name, nil) != nil
			if !e.o.redefineCore && isCoreRule {
				return nil, &ErrCoreRuleModify{CoreRulename: rl.Name}
			}
			rule := vr__GetRule(rl.Name, mp)
			if rule == nil {
				return nil, &ErrRuleNotFound{Rulename: rl.Name}
			}

			mp[rule.Name] = &Rule{
				Name: rule.Name,
				Alternation: Alternation{
					Concatenations: slices.Concat(rule.Alternation.Concatenations, rl.Alternation.Concatenations),
				},
			}
		}
	}
	return &Grammar{Rulemap: mp}, nil
}

package goabnf

import errors "errors"

func vr__checkCanGenerateSafelyAlt(g *Grammar, knownRules map[string]struct{}, alt Alternation) error {
	errs := make([]error, len(alt.Concatenations))
	for alti, concat := range alt.Concatenations {
		errs[alti] = vr__checkCanGenerateSafelyConcat(g, knownRules, concat)
	}
	allErrors := true
	for i := 0; i < len(errs) && allErrors; i++ {
		if errs[i] == nil {
			allErrors = false
		}
	}
	if allErrors {
		return errors.Join(errs...)
	}
	return nil
}

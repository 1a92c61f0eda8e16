package goabnf

import fmt "fmt"

func vr_ErrCyclicRule_Error(err ErrCyclicRule) string {
	return fmt.Sprintf("can't generate a content as the rule %s involves an unavoidable cycle", err.Rulename)
}

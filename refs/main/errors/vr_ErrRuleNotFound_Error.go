package goabnf

import fmt "fmt"

func vr_ErrRuleNotFound_Error(err ErrRuleNotFound) string {
	return fmt.Sprintf("rule %s was not found in grammar", err.Rulename)
}

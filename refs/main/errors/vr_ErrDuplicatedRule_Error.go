package goabnf

import fmt "fmt"

func vr_ErrDuplicatedRule_Error(err ErrDuplicatedRule) string {
	return fmt.Sprintf("rule %s was already defined in grammar", err.Rulename)
}

package goabnf

import fmt "fmt"

func vr_ErrDependencyNotFound_Error(err ErrDependencyNotFound) string {
	return fmt.Sprintf("unsatisfied dependency (rule) %s", err.Rulename)
}

package goabnf

import fmt "fmt"

func vr_ErrMaxNodesExceeded_Error(err ErrMaxNodesExceeded) string {
	return fmt.Sprintf("transition graph node budget of %d exceeded", err.Max)
}

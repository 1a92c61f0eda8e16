package goabnf

import fmt "fmt"

func vr_ErrSemanticRepetition_Error(err ErrSemanticRepetition) string {
	return fmt.Sprintf("invalid semantic of input ABNF grammar for repetition %s", err.Repetition)
}

package goabnf

import fmt "fmt"

func vr_ErrTooLargeNumeral_Error(err ErrTooLargeNumeral) string {
	return fmt.Sprintf("too large numeral value %s for base %s", err.Value, err.Base)
}

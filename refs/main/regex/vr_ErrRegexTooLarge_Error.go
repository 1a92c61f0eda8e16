package goabnf

import fmt "fmt"

func vr_ErrRegexTooLarge_Error(e *ErrRegexTooLarge) string {
	return fmt.Sprintf("regex exceeds the configured %d-byte budget", e.Max)
}

package goabnf

import fmt "fmt"

func vr_Rule_String(rl Rule) string {
	return fmt.Sprintf("%s = %s", rl.Name, rl.Alternation)
}

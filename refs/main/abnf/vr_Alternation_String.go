package goabnf

import fmt "fmt"
import strings "strings"

func vr_Alternation_String(alt Alternation) string {
	str := ""
	for _, concat := range alt.Concatenations {
		str += fmt.Sprintf("%s / ", concat)
	}
	return strings.TrimSuffix(str, " / ")
}

package goabnf

import fmt "fmt"
import strings "strings"

func vr_Concatenation_String(cnt Concatenation) string {
	str := ""
	for _, rep := range cnt.Repetitions {
		str += fmt.Sprintf("%s ", rep)
	}
	return strings.TrimSuffix(str, " ")
}

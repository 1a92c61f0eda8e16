package goabnf

import fmt "fmt"
import strings "strings"

func vr_ParseError_Error(e *ParseError) string {
	var b strings.Builder
	fmt.Fprintf(&b, "parse error at line %d, column %d (offset %d)", e.Line, e.Col, e.Offset)
	switch {
	case len(e.Expected) > 0:
		fmt.Fprintf(&b, ": expected %s", strings.Join(e.Expected, ", "))
		if e.Found != "" {
			fmt.Fprintf(&b, ", found %s", e.Found)
		}
	case e.Found != "":
		fmt.Fprintf(&b, ": unexpected %s", e.Found)
	default:
		fmt.Fprintf(&b, ": %s", ErrNoSolutionFound)
	}
	if e.Hint != "" {
		fmt.Fprintf(&b, " (hint: %s)", e.Hint)
	}
	return b.String()
}

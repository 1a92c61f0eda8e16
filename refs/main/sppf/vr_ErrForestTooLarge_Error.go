package goabnf

import strconv "strconv"

func vr_ErrForestTooLarge_Error(e *ErrForestTooLarge) string {
	return "abnf: parse forest exceeded " + strconv.Itoa(e.Max) + " nodes"
}

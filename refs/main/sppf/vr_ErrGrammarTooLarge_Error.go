package goabnf

import strconv "strconv"

func vr_ErrGrammarTooLarge_Error(e *ErrGrammarTooLarge) string {
	return "abnf: grammar lowering exceeded " + strconv.Itoa(e.Max) + " nonterminals"
}

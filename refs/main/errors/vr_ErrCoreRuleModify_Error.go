package goabnf

import fmt "fmt"

func vr_ErrCoreRuleModify_Error(err ErrCoreRuleModify) string {
	return fmt.Sprintf("core rule %s can't be modified", err.CoreRulename)
}

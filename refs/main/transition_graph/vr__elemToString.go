package goabnf

import fmt "fmt"
import strings "strings"

func vr__elemToString(elem ElemItf) string {
	switch v := elem.(type) {
	case ElemRulename:
		return v.Name
	case ElemCharVal:
		str := ""
		for _, b := range v.Values {
			if b == '`' {
				str += "backquote"
			} else if b == '"' {
				str += "dquote"
			} else if 33 <= b && b <= 127 {
				str += string(b)
			}
		}
		return str
	case ElemNumVal:
		if v.Status == Status(1) {
			return fmt.Sprintf("0%s%s-%s", v.Base, v.Elems[0], v.Elems[1])
		}
		return fmt.Sprintf("0%s%s", v.Base, strings.Join(v.Elems, "."))
	}
	panic("not implemented yet")
}

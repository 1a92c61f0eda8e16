package goabnf

import strconv "strconv"
import strings "strings"

func vr__int32ToNumval(v int32, base string) string {
	switch base {
	case "B", "b":
		return strconv.FormatInt(int64(v), 2)
	case "D", "d":
		return strconv.FormatInt(int64(v), 10)
	case "X", "x":
		return strings.ToUpper(strconv.FormatInt(int64(v), 16))
	}
	return strconv.FormatInt(int64(v), 10)
}

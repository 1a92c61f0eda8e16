package goabnf

import fmt "fmt"

func vr__describeByte(b byte) string {
	switch b {
	case '\r':
		return "%x0D (CR)"
	case '\n':
		return "%x0A (LF)"
	case '\t':
		return "%x09 (HTAB)"
	case ' ':
		return "%x20 (SP)"
	}
	if b >= 0x20 && b < 0x7f {
		return fmt.Sprintf("%q", string(b))
	}
	return fmt.Sprintf("%%x%02X", b)
}

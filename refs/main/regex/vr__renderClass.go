package goabnf

import strings "strings"

func vr__renderClass(c *reClass) string {
	if len(c.ranges) == 1 && c.ranges[0].lo == c.ranges[0].hi {
		return vr__regescape(c.ranges[0].lo)
	}
	var b strings.Builder
	b.WriteByte('[')
	for _, r := range c.ranges {
		if r.lo == r.hi {
			b.WriteString(vr__classEscape(r.lo))
		} else {
			b.WriteString(vr__classEscape(r.lo))
			b.WriteByte('-')
			b.WriteString(vr__classEscape(r.hi))
		}
	}
	b.WriteByte(']')
	return b.String()
}

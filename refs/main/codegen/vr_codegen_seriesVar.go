package goabnf

import strconv "strconv"
import strings "strings"

func vr_codegen_seriesVar(c *codegen, bs []byte) int {
	key := string(bs)
	if i, ok := c.seriesIdx[key]; ok {
		return i
	}
	i := len(c.series)
	c.seriesIdx[key] = i
	parts := make([]string, len(bs))
	for k, x := range bs {
		parts[k] = strconv.Itoa(int(x))
	}
	c.series = append(c.series, "[]byte{"+strings.Join(parts, ", ")+"}")
	return i
}

package goabnf

func vr_Grammar_String(g *Grammar) string {
	str := ""
	for _, rule := range g.Rulemap {
		str += vr_Rule_String(*rule) + "\r\n"
	}
	return str
}

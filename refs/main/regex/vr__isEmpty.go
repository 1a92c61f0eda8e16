package goabnf

func vr__isEmpty(n reNode) bool { _, ok := n.(*reEmpty); return ok }

package goabnf

func vr__isNever(n reNode) bool { _, ok := n.(*reNever); return ok }

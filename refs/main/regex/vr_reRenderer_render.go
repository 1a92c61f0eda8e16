package goabnf

import strings "strings"

func vr_reRenderer_render(rr *reRenderer, sb *strings.Builder, n reNode, ctx int) {
	if rr.err != nil {
		return
	}
	grp := n.prec() < ctx
	if grp {
		vr_reRenderer_write(rr, sb, "(?:")
	}
	switch v := n.(type) {
	case *reEmpty:

		if !grp {
			vr_reRenderer_write(rr, sb, "(?:)")
		}
	case *reNever:
		vr_reRenderer_write(rr, sb, "[^\\x00-\\x{10ffff}]")
	case *reClass:
		vr_reRenderer_write(rr, sb, vr__renderClass(v))
	case *reConcat:
		for _, p := range v.parts {
			vr_reRenderer_render(rr, sb, p, 2)
		}
	case *reAlt:
		for i, o := range v.opts {
			if i > 0 {
				vr_reRenderer_write(rr, sb, "|")
			}
			vr_reRenderer_render(rr, sb, o, 1)
		}
	case *reRepeat:
		vr_reRenderer_render(rr, sb, v.sub, 4)
		vr_reRenderer_write(rr, sb, vr__quantifier(v.min, v.max))
	}
	if grp {
		vr_reRenderer_write(rr, sb, ")")
	}
}

package goabnf

func vr__simplify(n reNode, memo map[reNode]reNode) reNode {
	if n == nil {
		return reEmptyV
	}
	if s, ok := memo[n]; ok {
		return s
	}
	var res reNode
	switch v := n.(type) {
	case *reClass:
		res = &reClass{ranges: vr__normalizeRanges(v.ranges)}
	case *reEmpty:
		res = reEmptyV
	case *reNever:
		res = reNeverV
	case *reConcat:
		parts := make([]reNode, 0, len(v.parts))
		never := false
		for _, p := range v.parts {
			sp := vr__simplify(p, memo)
			switch x := sp.(type) {
			case *reEmpty:
			case *reNever:
				never = true
			case *reConcat:
				parts = append(parts, x.parts...)
			default:
				parts = append(parts, sp)
			}
		}
		switch {
		case never:
			res = reNeverV
		case len(parts) == 0:
			res = reEmptyV
		case len(parts) == 1:
			res = parts[0]
		default:
			res = &reConcat{parts: parts}
		}
	case *reAlt:
		opts := make([]reNode, 0, len(v.opts))
		for _, o := range v.opts {
			so := vr__simplify(o, memo)
			if vr__isNever(so) {
				continue
			}
			if x, ok := so.(*reAlt); ok {
				opts = append(opts, x.opts...)
			} else {
				opts = append(opts, so)
			}
		}

		var ranges []reRange
		classes := 0
		others := make([]reNode, 0, len(opts))
		for _, o := range opts {
			if c, ok := o.(*reClass); ok {
				ranges = append(ranges, c.ranges...)
				classes++
			} else {
				others = append(others, o)
			}
		}
		merged := make([]reNode, 0, len(others)+1)
		if classes > 0 {
			merged = append(merged, &reClass{ranges: vr__normalizeRanges(ranges)})
		}
		merged = append(merged, others...)
		switch len(merged) {
		case 0:

			res = reNeverV
		case 1:
			res = merged[0]
		default:
			res = &reAlt{opts: merged}
		}
	case *reRepeat:
		sub := vr__simplify(v.sub, memo)
		switch {
		case v.max != int(-1) && v.min > v.max:
			res = reNeverV
		case vr__isNever(sub):

			if v.min == 0 {
				res = reEmptyV
			} else {
				res = reNeverV
			}
		case vr__isEmpty(sub):
			res = reEmptyV
		case v.min == 1 && v.max == 1:
			res = sub
		default:
			res = &reRepeat{sub: sub, min: v.min, max: v.max}
		}
	default:
		res = n
	}
	memo[n] = res
	return res
}

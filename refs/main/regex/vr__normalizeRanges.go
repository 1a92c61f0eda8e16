package goabnf

import sort "sort"

func vr__normalizeRanges(rs []reRange) []reRange {
	if len(rs) <= 1 {
		return rs
	}
	cp := append([]reRange(nil), rs...)
	sort.Slice(cp, func(i, j int) bool {
		return cp[i].lo < cp[j].lo || (cp[i].lo == cp[j].lo && cp[i].hi < cp[j].hi)
	})
	out := []reRange{cp[0]}
	for _, r := range cp[1:] {
		last := &out[len(out)-1]
		if r.lo <= last.hi+1 {
			if r.hi > last.hi {
				last.hi = r.hi
			}
		} else {
			out = append(out, r)
		}
	}
	return out
}

package goabnf

func vr_tgmachine_reserveClones(m *tgmachine, reps int, entries []*Node) error {
	if m.options.maxNodes <= 0 {
		return nil
	}
	return vr_tgmachine_reserve(m, reps*vr__countReachable(entries))
}

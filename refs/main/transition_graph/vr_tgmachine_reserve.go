package goabnf

func vr_tgmachine_reserve(m *tgmachine, n int) error {
	if m.options.maxNodes <= 0 {
		return nil
	}
	if n < 0 || m.nodeCount+n < 0 || m.nodeCount+n > m.options.maxNodes {
		return &ErrMaxNodesExceeded{Max: m.options.maxNodes}
	}
	m.nodeCount += n
	return nil
}

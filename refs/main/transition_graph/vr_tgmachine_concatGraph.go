package goabnf

func vr_tgmachine_concatGraph(m *tgmachine, concat Concatenation) (entrypoints []*Node, endpoints []*Node, err error) {
	ci, co, err := vr_tgmachine_repGraph(m, concat.Repetitions[0])
	if err != nil {
		return nil, nil, err
	}
	for i := 1; i < len(concat.Repetitions); i++ {
		repi, repo, err := vr_tgmachine_repGraph(m, concat.Repetitions[i])
		if err != nil {
			return nil, nil, err
		}
		ci, co = vr__concatTransitionGraphs(ci, co, repi, repo)
	}
	return ci, co, nil
}

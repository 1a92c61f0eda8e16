package goabnf

func vr__chainTransitionGraph(i, o []*Node, n int) (tgs []TransitionGraph, entrypoints []*Node, endpoints []*Node) {

	if n == 0 {
		return
	}
	tgs = make([]TransitionGraph, n)

	entrypoints, endpoints = vr__cloneTransitionGraph(i, o)
	tgs[0] = TransitionGraph{
		Entrypoints: entrypoints,
		Endpoints:   endpoints,
	}

	for j := 1; j < n; j++ {
		nextI, nextO := vr__cloneTransitionGraph(i, o)
		tgs[j] = TransitionGraph{
			Entrypoints: nextI,
			Endpoints:   nextO,
		}
		entrypoints, endpoints = vr__concatTransitionGraphs(entrypoints, endpoints, nextI, nextO)
	}
	return
}

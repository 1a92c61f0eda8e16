package goabnf

import fmt "fmt"
import slices "slices"

func vr_TransitionGraph_ToMermaid(tg *TransitionGraph) string {

	mp := map[string]*Node{}
	for _, node := range tg.Entrypoints {
		if node == emptyNode {
			continue
		}
		vr__mapNodes(mp, node)
	}

	str := "flowchart LR\n    classDef entrypoint fill:#479abf\n\n"
	for _, node := range mp {

		nodeStr := "    " + node.ID
		elemStr := vr__elemToString(node.Elem)
		if slices.Contains(tg.Endpoints, node) {
			nodeStr += "(((\"" + elemStr + "\")))"
		} else {
			nodeStr += "[\"" + elemStr + "\"]"
		}
		str += nodeStr
		if slices.Contains(tg.Entrypoints, node) {
			str += ":::entrypoint"
		}
		str += "\n"

		for _, next := range node.Nexts {
			str += fmt.Sprintf("    %s --> %s\n", node.ID, next.ID)
		}
		str += "\n"
	}

	if slices.Contains(tg.Entrypoints, emptyNode) {
		str += "    emptyNode(((\u2205))):::entrypoint\n"
	}

	return str
}

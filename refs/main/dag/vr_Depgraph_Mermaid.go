package goabnf

import fmt "fmt"
import strings "strings"

func vr_Depgraph_Mermaid(dg Depgraph) string {
	var out strings.Builder
	out.WriteString("flowchart TD\n")
	for _, node := range dg {
		for _, dep := range node.Dependencies {
			fmt.Fprintf(&out, "\t%s --> %s\n", node.Rulename, dep)
		}
		out.WriteString("\n")
	}
	return out.String()
}

package goabnf

import uuid "github.com/hashicorp/go-uuid"

func vr__cloneTG(originToNewNodes map[string]cnode, origin *Node) {
	id, _ := uuid.GenerateUUID()

	originToNewNodes[origin.ID] = cnode{
		origin: origin,
		cloned: &Node{
			ID:    id,
			Elem:  origin.Elem,
			Nexts: nil,
		},
	}

	for _, n := range origin.Nexts {
		if _, ok := originToNewNodes[n.ID]; ok {
			continue
		}
		vr__cloneTG(originToNewNodes, n)
	}
}

package goabnf

import uuid "github.com/hashicorp/go-uuid"

func vr__newNode(elem ElemItf) *Node {
	id, _ := uuid.GenerateUUID()
	return &Node{
		ID:   id,
		Elem: elem,
	}
}

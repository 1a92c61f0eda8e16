package goabnf

import strings "strings"
import utf8 "unicode/utf8"

func vr_tgmachine_elemGraph(m *tgmachine, elem ElemItf) (entrypoints []*Node, endpoints []*Node, err error) {
	switch v := elem.(type) {

	case ElemCharVal:
		if len(v.Values) == 0 {
			entrypoints = append(entrypoints, emptyNode)
			endpoints = append(endpoints, emptyNode)
			return
		}

		if !m.options.deflateCharVals {
			if err := vr_tgmachine_reserve(m, 1); err != nil {
				return nil, nil, err
			}
			n := vr__newNode(v)
			entrypoints = append(entrypoints, n)
			endpoints = append(endpoints, n)
			return
		}

		if err := vr_tgmachine_reserve(m, 2*len(v.Values)); err != nil {
			return nil, nil, err
		}

		var prevs []*Node = nil
		var curr []*Node = nil
		for _, r := range v.Values {
			isLower := r >= 'a' && r <= 'z'
			isUpper := r >= 'A' && r <= 'Z'
			requireBoth := (isLower || isUpper) && !v.Sensitive

			if !requireBoth {
				n := vr__newNode(ElemCharVal{
					Sensitive: true,
					Values:    []rune{r},
				})
				curr = []*Node{n}

				if prevs == nil {
					entrypoints = append(entrypoints, n)
				}
				for _, v := range prevs {
					v.Nexts = append(v.Nexts, curr...)
				}
				prevs = []*Node{n}
			} else {
				nlv := r
				if isUpper {
					nlv = vr__runeMin(nlv)
				}
				nuv := r
				if isLower {
					nuv = vr__runeMax(nuv)
				}

				nl := vr__newNode(ElemCharVal{
					Sensitive: true,
					Values:    []rune{nlv},
				})
				nu := vr__newNode(ElemCharVal{
					Sensitive: true,
					Values:    []rune{nuv},
				})
				curr = []*Node{nl, nu}

				if prevs == nil {
					entrypoints = append(entrypoints, nl, nu)
				}
				for _, v := range prevs {
					v.Nexts = append(v.Nexts, curr...)
				}
				prevs = []*Node{nl, nu}
			}
		}
		endpoints = append(endpoints, curr...)
		return

	case ElemNumVal:
		if !m.options.deflateNumVals {
			if err := vr_tgmachine_reserve(m, 1); err != nil {
				return nil, nil, err
			}
			n := vr__newNode(v)
			entrypoints = append(entrypoints, n)
			endpoints = append(endpoints, n)
			return
		}
		switch v.Status {
		case Status(1):
			min, max := vr__numvalToInt32(v.Elems[0], v.Base), vr__numvalToInt32(v.Elems[1], v.Base)

			if max > utf8.MaxRune {
				max = utf8.MaxRune
			}
			if min > utf8.MaxRune || min > max {
				return
			}
			if err := vr_tgmachine_reserve(m, int(max-min+1)); err != nil {
				return nil, nil, err
			}
			for i := min; i <= max; i++ {
				n := vr__newNode(ElemNumVal{
					Base:   v.Base,
					Status: Status(0),
					Elems:  []string{vr__int32ToNumval(i, v.Base)},
				})
				entrypoints = append(entrypoints, n)
				endpoints = append(endpoints, n)
			}

		case Status(0):
			if err := vr_tgmachine_reserve(m, len(v.Elems)); err != nil {
				return nil, nil, err
			}

			var prev *Node
			for _, s := range v.Elems {
				n := vr__newNode(ElemNumVal{
					Base:   v.Base,
					Status: Status(0),
					Elems:  []string{s},
				})
				if prev == nil {
					entrypoints = append(entrypoints, n)
				} else {
					prev.Nexts = append(prev.Nexts, n)
				}
				prev = n
			}
			if prev != nil {
				endpoints = append(endpoints, prev)
			}
		}
		return

	case ElemRulename:
		if m.options.deflateRules {
			name := strings.ToLower(v.Name)
			if n, ok := m.buf[name]; ok {
				if err := vr_tgmachine_reserveClones(m, 1, n[0]); err != nil {
					return nil, nil, err
				}
				entrypoints, endpoints := vr__cloneTransitionGraph(n[0], n[1])
				return entrypoints, endpoints, nil
			}
			rule := vr__GetRule(v.Name, m.grammar.Rulemap)
			if rule == nil {
				return nil, nil, &ErrRuleNotFound{
					Rulename: v.Name,
				}
			}
			i, o, err := vr_tgmachine_altGraph(m, rule.Alternation)
			if err != nil {
				return nil, nil, err
			}
			if err := vr_tgmachine_reserveClones(m, 1, i); err != nil {
				return nil, nil, err
			}
			ni, no := vr__cloneTransitionGraph(i, o)
			m.buf[name] = [2][]*Node{ni, no}
			return i, o, nil
		}
		if err := vr_tgmachine_reserve(m, 1); err != nil {
			return nil, nil, err
		}
		n := vr__newNode(v)
		entrypoints = append(entrypoints, n)
		endpoints = append(endpoints, n)
		return

	case ElemOption:
		elemi, elemo, err := vr_tgmachine_altGraph(m, v.Alternation)
		if err != nil {
			return nil, nil, err
		}
		elemi = vr__appendNodes(elemi, emptyNode)
		elemo = vr__appendNodes(elemo, emptyNode)
		return elemi, elemo, nil

	case ElemGroup:
		return vr_tgmachine_altGraph(m, v.Alternation)
	case ElemProseVal:
		return nil, nil, ErrProseValInTransitionGraph
	}

	panic("unsupported element")
}

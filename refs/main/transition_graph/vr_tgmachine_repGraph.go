package goabnf

func vr_tgmachine_repGraph(m *tgmachine, rep Repetition) (entrypoints []*Node, endpoints []*Node, err error) {

	elemi, elemo, err := vr_tgmachine_elemGraph(m, rep.Element)
	if err != nil {
		return nil, nil, err
	}

	if rep.Min == 0 {
		entrypoints = vr__appendNodes(entrypoints, emptyNode)
		endpoints = vr__appendNodes(endpoints, emptyNode)

		switch rep.Max {
		case 1:

			entrypoints = vr__appendNodes(entrypoints, elemi...)
			endpoints = vr__appendNodes(endpoints, elemo...)
		case int(-1):

			elemiNoEmpty := []*Node{}
			for _, velemi := range elemi {
				if velemi == emptyNode {
					continue
				}
				elemiNoEmpty = vr__appendNodes(elemiNoEmpty, velemi)
			}
			for _, velemo := range elemo {
				if velemo == emptyNode {
					continue
				}
				velemo.Nexts = vr__appendNodes(velemo.Nexts, elemiNoEmpty...)
			}
			entrypoints = vr__appendNodes(entrypoints, elemi...)
			endpoints = vr__appendNodes(endpoints, elemo...)

		default:

			if rep.Max > m.options.repetitionThreshold {
				return nil, nil, ErrRepetitionThreshold
			}
			if err := vr_tgmachine_reserveClones(m, rep.Max, elemi); err != nil {
				return nil, nil, err
			}
			tgs, chi, _ := vr__chainTransitionGraph(elemi, elemo, rep.Max)
			entrypoints = vr__appendNodes(entrypoints, chi...)
			for _, tg := range tgs {
				endpoints = vr__appendNodes(endpoints, tg.Endpoints...)
			}
		}
	} else {
		switch rep.Max {
		case 1:

			if rep.Min != 1 {
				return nil, nil, ErrRepetitionMinNotOne
			}
			entrypoints = vr__appendNodes(entrypoints, elemi...)
			endpoints = vr__appendNodes(endpoints, elemo...)

		case int(-1):

			if rep.Min > m.options.repetitionThreshold {
				return nil, nil, ErrRepetitionThreshold
			}
			if err := vr_tgmachine_reserveClones(m, rep.Min, elemi); err != nil {
				return nil, nil, err
			}
			tgs, chi, cho := vr__chainTransitionGraph(elemi, elemo, rep.Min)
			entrypoints = vr__appendNodes(entrypoints, chi...)
			endpoints = vr__appendNodes(endpoints, cho...)

			last := tgs[len(tgs)-1]
			for _, vo := range last.Endpoints {
				if vo == emptyNode {
					continue
				}
				for _, etp := range last.Entrypoints {

					if etp == emptyNode {
						continue
					}
					vo.Nexts = vr__appendNodes(vo.Nexts, etp)
				}
			}

		default:

			if rep.Min > rep.Max {
				return nil, nil, ErrRepetitionMinGtMax
			}
			if rep.Max > m.options.repetitionThreshold {
				return nil, nil, ErrRepetitionThreshold
			}

			firstI, lastO := elemi, elemo
			if rep.Min > 1 {
				if err := vr_tgmachine_reserveClones(m, rep.Min, elemi); err != nil {
					return nil, nil, err
				}
				_, firstI, lastO = vr__chainTransitionGraph(elemi, elemo, rep.Min)
			}
			entrypoints = vr__appendNodes(entrypoints, firstI...)
			endpoints = vr__appendNodes(endpoints, lastO...)

			remaining := rep.Max - rep.Min
			if remaining > 0 {
				if err := vr_tgmachine_reserveClones(m, rep.Max-rep.Min, elemi); err != nil {
					return nil, nil, err
				}
				tgs, chi, _ := vr__chainTransitionGraph(elemi, elemo, rep.Max-rep.Min)
				for _, tg := range tgs {
					endpoints = vr__appendNodes(endpoints, tg.Endpoints...)
				}
				for _, vlasto := range lastO {
					if vlasto == emptyNode {
						continue
					}
					for _, nchi := range chi {
						if nchi == emptyNode {
							continue
						}
						vlasto.Nexts = vr__appendNodes(vlasto.Nexts, nchi)
					}
				}
			}
		}
	}

	return
}

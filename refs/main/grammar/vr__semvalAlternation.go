package goabnf

func vr__semvalAlternation(alt Alternation) error {
	for _, concat := range alt.Concatenations {
		for _, rep := range concat.Repetitions {

			if rep.Max != int(-1) && rep.Min > rep.Max {
				return &ErrSemanticRepetition{
					Repetition: rep,
				}
			}
			switch elem := rep.Element.(type) {

			case ElemNumVal:
				for _, val := range elem.Elems {
					if err := vr__checkBounds(val, elem.Base); err != nil {
						return err
					}
				}

			case ElemGroup:
				if err := vr__semvalAlternation(elem.Alternation); err != nil {
					return err
				}

			case ElemOption:
				if err := vr__semvalAlternation(elem.Alternation); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

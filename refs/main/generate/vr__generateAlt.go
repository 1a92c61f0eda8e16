package goabnf

import rand "math/rand"
import utf8 "unicode/utf8"

func vr__generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, options *genOpts) {

	cnt := alt.Concatenations[int(rand.Int63())%len(alt.Concatenations)]

	for _, rep := range cnt.Repetitions {
		repmax := rep.Max
		if repmax == int(-1) {
			repmax = options.repMax
		}
		if repmax < rep.Min {
			repmax = rep.Min
		}
		torep := rep.Min + int(rand.Int63())%(repmax-rep.Min+1)
		for i := 0; vr__generateKeepGoing(i, torep, rep.Min, len(*out), options.threshold); i++ {
			switch elem := rep.Element.(type) {
			case ElemRulename:
				rule := vr__GetRule(elem.Name, g.Rulemap)
				vr__generateAlt(rand, g, out, rule.Alternation, options)

			case ElemOption:
				if (rand.Int63() % 2) == 0 {
					vr__generateAlt(rand, g, out, elem.Alternation, options)
				}

			case ElemGroup:
				vr__generateAlt(rand, g, out, elem.Alternation, options)

			case ElemNumVal:
				switch elem.Status {
				case Status(1):
					min, max := vr__numvalToRune(elem.Elems[0], elem.Base), vr__numvalToRune(elem.Elems[1], elem.Base)

					if max > utf8.MaxRune {
						max = utf8.MaxRune
					}
					if min <= utf8.MaxRune && min <= max {
						r := min + (rune(rand.Int63()&0x0F) % (max - min + 1))
						vr__appendPtr(out, r)
					}

				case Status(0):
					for _, v := range elem.Elems {
						r := vr__numvalToRune(v, elem.Base)

						if utf8.ValidRune(r) {
							vr__appendPtr(out, r)
						}
					}
				}

			case ElemCharVal:
				for _, val := range elem.Values {
					if !elem.Sensitive && (int(rand.Int63())%2) == 0 {
						val = vr__runeMax(val)
					}
					vr__appendPtr(out, val)
				}
			}

		}
	}
}

B=[]
def b(id, prop, *edits): B.append((id, prop, list(edits)))
R="recognize.go"; S="sppf.go"; G="grammar.go"; L="leftrec.go"; T="transition_graph.go"; C="codegen.go"; BS="bsr.go"; X="regex.go"; F="fuzz.go"; A="ast.go"; D="dag.go"; U="utils.go"; GE="generate.go"; E="errors.go"
b("i-memo-prefix","C08",(R,'''	key := elem.String() + "@" + strconv.Itoa(index)
''','''	key := strconv.Itoa(index) + elem.String()
'''))
b("i-memo-noat","C08",(R,'''	sidx := "@" + strconv.Itoa(index)
''','''	sidx := strconv.Itoa(index)
'''))
b("i-reachrep-seenbreak","C07",(R,'''		if stable || (!grew && c >= rep.Min) {
			break
		}
''','''		if !grew {
			break
		}
'''))
b("i-reachrep-nomin","C07",(R,'''		if c >= rep.Min || stable {
''','''		if c >= rep.Min || !hasNew(next, seen) {
'''),(R,'''func (r *recognizer) reachRep(''','''func hasNew(next, seen map[int]bool) bool {
	for e := range next {
		if !seen[e] {
			return true
		}
	}
	return false
}

func (r *recognizer) reachRep('''))
b("i-reachalt-share","C02",(R,'''	out := map[int]bool{}
	for _, c := range alt.Concatenations {
		for e := range r.reachConcat(c, index) {
			out[e] = true
		}
	}
	return out
''','''	var out map[int]bool
	for _, c := range alt.Concatenations {
		ends := r.reachConcat(c, index)
		if out == nil {
			out = ends
			continue
		}
		for e := range ends {
			out[e] = true
		}
	}
	if out == nil {
		out = map[int]bool{}
	}
	return out
'''),(R,'''	cur := map[int]bool{index: true}
	for _, rep := range c.Repetitions {
		next''','''	if len(c.Repetitions) == 1 && c.Repetitions[0].Min == 1 && c.Repetitions[0].Max == 1 {
		return r.reachElem(c.Repetitions[0].Element, index)
	}
	cur := map[int]bool{index: true}
	for _, rep := range c.Repetitions {
		next'''))
b("i-leftrec-onlyself","C23",(R,'''		r.memo[keys[i]] = cloneSet(v)
		if x == name {
			result = cloneSet(v)
		}
''','''		if x == name {
			result = v
		}
		r.memo[keys[i]] = v
'''),(R,'''				if !cur[e] {
					cur[e] = true
					changed = true
				}
''','''				if !cur[e] && e >= index {
					cur[e] = true
					changed = changed || e > index
				}
'''))
b("i-nullable-lit","C23",(L,'''	case ElemCharVal:
		return len(v.Values) == 0
''','''	case ElemCharVal:
		return len(v.Values) == 0 && !v.Sensitive
'''))
b("i-corner-min0","C23",(L,'''				if rep.Min == 0 || elemNullable(g, null, rep.Element) {
''','''				if rep.Min == 0 && rep.Max != 0 || elemNullable(g, null, rep.Element) {
'''))
b("i-scc-dup","C23",(L,'''		if _, ok := lc[name]; ok {
			return
		}
''','''		if prev, ok := lc[name]; ok && len(prev.Dependencies) > 0 {
			return
		}
'''),(L,'''	for n := range coreRules {
		if r := GetRule(n, g.Rulemap); r != nil {
			add(r)
		}
	}

	finder''','''	for _, r := range coreRules {
		add(r)
	}

	finder'''))
b("i-slot-key-str","C08",(S,'''	key := "rep:" + rep.String()
''','''	key := "rep:" + strings.ToLower(rep.String())
'''),(S,'''import (''','''import (
	"strings"
'''))
b("i-grp-opt-key","C08",(S,'''	key := "opt:" + v.String()
''','''	key := "grp:" + ElemGroup{Alternation: v.Alternation}.String()
'''))
b("i-popped-end","C09",(S,'''		for z := range p.popped[v] {
			y := p.getNodeP(L, w, z)
''','''		for z := range p.popped[v] {
			if z.End == i && w == nil {
				continue // nothing consumed
			}
			y := p.getNodeP(L, w, z)
'''))
b("i-process-epsrc","C07",(S,'''				if s.nt == L.nt {
					childRC = capRC(rc, p.sg.nts[s.nt])
				}
				p.addRepAlts(s.nt, v, i, childRC)
			} else {
				for ai := range p.sg.nts[s.nt].alts {
					p.add(slot{s.nt, ai, 0}, v, i, nil, 0)''','''				if s.nt == L.nt {
					childRC = capRC(rc, p.sg.nts[s.nt])
				} else if p.sg.nts[L.nt].isRep && p.sg.nts[L.nt].repMin == p.sg.nts[s.nt].repMin {
					childRC = rc
				}
				p.addRepAlts(s.nt, v, i, childRC)
			} else {
				for ai := range p.sg.nts[s.nt].alts {
					p.add(slot{s.nt, ai, 0}, v, i, nil, 0)'''))
b("i-bsr-caprc","C10",(BS,'''				if s.nt == L.nt {
					childRC = capRC(rc, p.sg.nts[s.nt])
				}
''','''				if s.nt == L.nt {
					childRC = min(rc+1, max(p.sg.nts[s.nt].repMin, p.sg.nts[s.nt].repMax))
				}
'''))
b("i-bsr-index-dedup","C30",(BS,'''		f.index[k] = append(f.index[k], e.k)
''','''		if ks := f.index[k]; len(ks) > 0 && ks[len(ks)-1] == e.k+1 {
			continue
		}
		f.index[k] = append(f.index[k], e.k)
'''))
b("i-bsr-memo-inter","C30",(BS,'''		id := bsrNodeID{inter: true, slot: sl, l: l, r: r}
		if v, ok := memo[id]; ok {
''','''		id := bsrNodeID{inter: true, slot: slot{sl.nt, 0, sl.dot}, l: l, r: r}
		if v, ok := memo[id]; ok {
'''))
b("i-rulelist-append","C02",(G,'''			mp[rule.Name] = &Rule{
				Name: rule.Name,
				Alternation: Alternation{
					Concatenations: slices.Concat(rule.Alternation.Concatenations, rl.Alternation.Concatenations),
				},
			}
''','''			ext := *rule
			ext.Alternation.Concatenations = append(ext.Alternation.Concatenations, rl.Alternation.Concatenations...)
			mp[rule.Name] = &ext
'''))
b("i-parse-repeat-min","C33",(G,'''	if post := after; post != "" {
		max, _ = strconv.Atoi(post)
	}
''','''	if post := strings.TrimLeft(after, "0"); post != "" {
		max, _ = strconv.Atoi(post)
	}
'''))
b("i-repeat-parseint","C07",(G,'''	if !ok {
		d, _ := strconv.Atoi(s)
		return d, d
	}
''','''	if !ok {
		d, _ := strconv.ParseInt(s, 0, 64)
		return int(d), int(d)
	}
'''))
b("i-defined-as","C17",(G,'''	if strings.Contains(e.span(defNode), "=/") {
''','''	if strings.HasSuffix(e.span(defNode), "/") || strings.Contains(e.span(defNode), "=/ ") {
'''))
b("i-prose-runes","C33",(G,'''	for i := t.Start + 1; i < t.End-1; i++ {
		values = append(values, string(e.input[i]))
	}
''','''	for _, v := range strings.Fields(string(e.input[t.Start+1 : t.End-1])) {
		values = append(values, v)
	}
'''))
b("i-semval-group-order","C05",(G,'''			case ElemNumVal:
				for _, val := range elem.Elems {
					if err := checkBounds(val, elem.Base); err != nil {
						return err
					}
				}
''','''			case ElemNumVal:
				// bounds of a range are ordered: only the last can be too large
				if err := checkBounds(elem.Elems[len(elem.Elems)-1], elem.Base); err != nil {
					return err
				}
'''))
b("i-numval-base-upper","C16",(U,'''	case "X", "x":
		return 16
	}
	return 10
''','''	case "x":
		return 16
	}
	return 10
'''))
b("i-uint-trunc","C16",(U,'''	v, err := strconv.ParseUint(str, baseRadix(base), 64)
	if err != nil {
		return 0, false
	}
	return v, true
''','''	v, err := strconv.ParseUint(str, baseRadix(base), 64)
	if err != nil && !errors.Is(err, strconv.ErrRange) {
		return 0, false
	}
	return v & math.MaxUint32, true
'''),(U,'''import (''','''import (
	"errors"'''))
b("i-tg-buf-rule","C26",(T,'''	firstI, lastO := elemi, elemo
			if rep.Min > 1 {''','''	firstI, lastO := elemi, elemo
			if rep.Min > 1 && rep.Min < rep.Max {'''))
b("i-tg-clone-reuse","C26",(T,'''	for j := 1; j < n; j++ {
		nextI, nextO := cloneTransitionGraph(i, o)
''','''	for j := 1; j < n; j++ {
		nextI, nextO := i, o
		if j < n-1 {
			nextI, nextO = cloneTransitionGraph(i, o)
		}
'''))
b("i-tg-threshold-nested","C04",(T,'''			if rep.Min > rep.Max {
				return nil, nil, ErrRepetitionMinGtMax
			}
			if rep.Max > m.options.repetitionThreshold {
''','''			if rep.Min > rep.Max {
				return nil, nil, ErrRepetitionMinGtMax
			}
			if rep.Max-rep.Min > m.options.repetitionThreshold {
'''))
b("i-reader-edge-id","C27",(T,'''	return tgNodeID(from) + ">" + tgNodeID(to)
}

''','''	return tgNodeID(from)[:min(8, len(tgNodeID(from)))] + ">" + tgNodeID(to)[:min(8, len(tgNodeID(to)))]
}

'''))
b("i-compact-emit","C27",(T,'''		for id, c := range claimed {
			nextVal[id] += c
		}
''','''		for id := range claimed {
			nextVal[id] += int32(newCount)
		}
'''))
b("i-consume-order","C27",(T,'''		tgr.varIdx[i] = 0
		i--
	}
	if i < 0 {''','''		tgr.varIdx[i] = 0
		i--
		if i >= 0 && tgr.varTot[i] == 1 {
			i--
		}
	}
	if i < 0 {'''))
b("i-nodeemit-upper","C27",(T,'''		if numVar > 30 {
			numVar = 30
		}
''','''		if numVar > 8 {
			numVar = 8
		}
'''))
b("i-nearest-cap","C28",(F,'''			next = g.nearestToEnd(liveAll)
''','''			next = g.nearestToEnd(liveCapped)
'''),(F,'''		} else if terminating {
''','''		} else if terminating && len(liveCapped) == 0 {
			next = liveAll[0]
		} else if terminating {
'''))
b("i-dist-stale","C28",(F,'''			if g.canReach[pid] {
				continue
			}
			g.canReach[pid] = true
			g.distToEnd[pid] = g.distToEnd[id] + 1
''','''			g.distToEnd[pid] = g.distToEnd[id] + 1
			if g.canReach[pid] {
				continue
			}
			g.canReach[pid] = true
'''))
b("i-expected-accept","C15",(F,'''				if g.endSet[tgNodeID(s.n)] {
					lastCompletedEndpoint = true
				}
''','''				lastCompletedEndpoint = g.endSet[tgNodeID(s.n)]
'''))
b("i-emission-cachekey","C15",(F,'''	id := tgNodeID(n)
	if g.emitCache == nil {''','''	id := n.Elem.String()
	if cv, ok := n.Elem.(ElemCharVal); ok {
		id = string(cv.Values)
	}
	if g.emitCache == nil {'''))
b("i-nearmiss-valid","C15",(F,'''		valid, err := g.tg.grammar.IsValid(g.tg.rulename, c.bytes)
		if err == nil && !valid {
''','''		if len(c.bytes) > len(base) && g.endSet[""] {
			continue
		}
		valid, err := g.tg.grammar.IsValid(g.tg.rulename, c.bytes)
		if err != nil || !valid {
'''))
b("i-ast-rep-hi","C22",(A,'''	if hi == inf || hi < lo { // unbounded: cap the optional unrolling
''','''	if hi == inf || hi < lo || hi-lo > ag.maxRepeat { // cap the optional unrolling
'''),(A,'''		hi = lo + ag.maxRepeat
''','''		hi = max(lo, 1) + ag.maxRepeat
'''))
b("i-ast-depth-group","C28",(A,'''		ag.genAlt(src, out, r.Alternation, depth+1)
''','''		if len(r.Alternation.Concatenations) > 1 {
			depth++
		}
		ag.genAlt(src, out, r.Alternation, depth)
'''))
b("i-ast-cost-opt","C28",(A,'''		total = addClamp(total, mulClamp(rep.Min, ag.costElem(rep.Element)))
''','''		total = addClamp(total, mulClamp(min(rep.Min, 1), ag.costElem(rep.Element)))
'''))
b("i-regex-flat-rep","C25",(X,'''		case v.min == 1 && v.max == 1:
			res = sub
		default:
''','''		case v.min == 1 && v.max == 1:
			res = sub
		case isRepeat(sub) && v.min <= 1 && v.max == inf:
			res = &reRepeat{sub: sub.(*reRepeat).sub, min: v.min * sub.(*reRepeat).min, max: inf}
		default:
'''),(X,'''func isEmpty(n''','''func isRepeat(n reNode) bool { _, ok := n.(*reRepeat); return ok }

func isEmpty(n'''))
b("i-regex-alt-concat","C25",(X,'''			if x, ok := so.(*reAlt); ok {
				opts = append(opts, x.opts...) // flatten
			} else {''','''			if x, ok := so.(*reAlt); ok {
				opts = append(opts, x.opts...) // flatten
			} else if len(opts) > 0 && opts[len(opts)-1] == so {
				opts[len(opts)-1] = so
			} else if isEmpty(so) && len(v.opts) == 2 {
				continue
			} else {'''))
b("i-regex-memo","C08",(X,'''	n := b.alt(r.Alternation)
	b.memo[key] = n
	return n
''','''	n := b.alt(r.Alternation)
	b.memo[key[:min(len(key), 16)]] = n
	return n
'''),(X,'''	if n, ok := b.memo[key]; ok {
		return n
	}
	r :=''','''	if n, ok := b.memo[key[:min(len(key), 16)]]; ok {
		return n
	}
	r :='''))
b("i-regex-budget","C04",(X,'''	rr.n += len(s)
	if rr.max > 0 && rr.n > rr.max {
''','''	rr.n += utf8.RuneCountInString(s)
	if rr.max > 0 && rr.n > rr.max {
'''))
b("i-regex-norm-order","C25",(X,'''			if r.hi > last.hi {
				last.hi = r.hi
			}
''','''			last.hi = r.hi
'''))
b("i-err-col","C21",(E,'''			line++
			col = 1
		} else {
			col++
		}
''','''			line++
			col = 1
		} else if input[i] < 0x80 || input[i] >= 0xC0 {
			col++
		}
'''))
b("i-err-expected-empty","C21",(S,'''	if i != p.maxPos {
		return
	}
''','''	if i != p.maxPos || i == 0 && len(p.input) > 0 && len(p.expected) > 8 {
		return
	}
'''))
b("i-gen-opt-rand","C22",(GE,'''					if !elem.Sensitive && (int(rand.Int63())%2) == 0 {
						val = runeMax(val)
					}
''','''					if (int(rand.Int63())%2) == 0 && (!elem.Sensitive || len(elem.Values) > 32) {
						val = runeMax(val)
					}
'''))
b("i-gen-known-alias","C11",(GE,'''			scopeRules := duplicateMap(knownRules)
''','''			scopeRules := knownRules
'''))
b("i-dag-low","C11",(D,'''			v.lowlink = min(v.lowlink, w.index)
''','''			v.lowlink = min(v.lowlink, w.lowlink+1)
'''))

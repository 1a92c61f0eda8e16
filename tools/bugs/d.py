B=[]
def b(id, prop, *edits): B.append((id, prop, list(edits)))
G="generate.go"; F="fuzz.go"; A="ast.go"; N="abnf.go"; O="option.go"; E="errors.go"
# generate.go
b("g-undefined-shallow","C20",(G,"		if err := checkRulesDefined(g, rule.Alternation, visited); err != nil {\n			return err\n		}\n	}","		for _, d := range getDependencies(rule.Alternation) {\n			if !visited[d] && GetRule(d, g.Rulemap) == nil {\n				return &ErrRuleNotFound{Rulename: d}\n			}\n		}\n	}"))
b("g-known-shared","C28",(G,"			scopeRules := duplicateMap(knownRules)","			scopeRules := knownRules"))
b("g-known-case","C28",(G,"				if strings.EqualFold(elem.Name, known) {","				if elem.Name == known {"),(G,'	"strings"\n',""))
b("g-min-skip","C28",(G,"		if rep.Min == 0 {\n			continue\n		}","		if rep.Min == 0 || rep.Max == inf {\n			continue\n		}"))
b("g-alt-any","C28",(G,"	for i := 0; i < len(errs) && allErrors; i++ {","	for i := 1; i < len(errs) && allErrors; i++ {"))
b("g-rep-inf","C07",(G,"		if repmax == inf {\n			repmax = options.repMax","		if repmax == inf || repmax > options.repMax {\n			repmax = options.repMax"))
b("g-rep-mod","C07",(G,"%(repmax-rep.Min+1)","%(repmax-rep.Min+2)"))
b("g-range-wrap","C22",(G,"% (max - min + 1))","% (max - min + 2))"))
b("g-series-surrogate","C22",(G,"						if utf8.ValidRune(r) {","						if r <= utf8.MaxRune {"))
b("g-char-sensitive","C06",(G,"if !elem.Sensitive && (int(rand.Int63())%2) == 0 {","if (!elem.Sensitive || len(elem.Values) > 8) && (int(rand.Int63())%2) == 0 {"))
b("g-threshold","C28",(G,"	if i == 0 && minrep == 0 && lenout >= threshold {","	if i == 0 && minrep == 0 && lenout > threshold {"))
b("g-threshold-min","C22",(G,"	if i == 0 && minrep == 0 && lenout >= threshold {","	if i == 0 && minrep <= 1 && lenout >= threshold {"))
b("g-opt-def","C29",(G,"		threshold: 256,","		threshold: 255,"))
b("g-opt-cross","C29",(G,"	opts.threshold = int(opt)","	opts.threshold = int(opt)\n	if opts.repMax > int(opt) {\n		opts.repMax = int(opt)\n	}"))
b("g-prose-group","C22",(G,"		case ElemProseVal:\n			return ErrHandlingProseVal\n","		case ElemProseVal:\n			if len(concat.Repetitions) == 1 {\n				return ErrHandlingProseVal\n			}\n"))
b("g-seed","C03",(G,"	rand := rand.NewSource(seed)","	if seed == 0 {\n		seed = rand.Int63()\n	}\n	rand := rand.NewSource(seed)"))
b("g-option-always","C22",(G,"				if (rand.Int63() % 2) == 0 {\n					generateAlt(rand, g, out, elem.Alternation, options)\n				}","				if (rand.Int63() % 2) == 0 {\n					generateAlt(rand, g, out, Alternation{Concatenations: elem.Alternation.Concatenations[:1]}, options)\n				}"))
b("g-dupmap","C28",(G,"	maps.Copy(n, m)\n","	if len(m) < 64 {\n		maps.Copy(n, m)\n	}\n"))
# fuzz.go
b("f-tape-width","C22",(F,"	for max := n; max > 256; max","	for max := n; max > 255; max"))
b("f-rand-one","C03",(F,"	return s.r.Intn(n)","	if n == 2 {\n		return rand.Intn(n)\n	}\n	return s.r.Intn(n)"))
b("f-indexed-tail","C32",(F,"		if off+k < len(s.tape) {","		if off < len(s.tape) {"))
b("f-opt-maxlen","C29",(F,"		g.maxLength = n\n","		g.maxLength = max(n, 1)\n"))
b("f-opt-default","C29",(F,"		maxReps:   32,","		maxReps:   64,"))
b("f-unexpanded-entry","C22",(F,"		if !producing(n) {\n			return nil, fmt","		if !producing(n) && len(n.Nexts) > 0 {\n			return nil, fmt"))
b("f-dist","C28",(F,"g.distToEnd[pid] = g.distToEnd[id] + 1","g.distToEnd[pid] = max(g.distToEnd[id], 1)"))
b("f-dist-order","C28",(F,"		id := q[0]\n		q = q[1:]\n","		id := q[len(q)-1]\n		q = q[:len(q)-1]\n"))
b("f-entries-all","C22",(F,"		if g.canReach[tgNodeID(e)] {\n			g.entries","		if e != emptyNode || len(g.entries) == 0 {\n			g.entries"))
b("f-endset","C22",(F,"		g.endSet[id] = true\n		if !g.canReach","		g.endSet[id] = true\n		for _, p := range revAdj[id] {\n			if len(p.Nexts) == 1 {\n				g.endSet[tgNodeID(p)] = e == emptyNode\n			}\n		}\n		if !g.canReach"))
b("f-walk-live","C22",(F,"			if sc == emptyNode || !g.canReach[tgNodeID(sc)] {\n				continue\n			}\n			liveAll","			if sc == emptyNode {\n				continue\n			}\n			liveAll"))
b("f-walk-cap","C28",(F,"			if visits[id+\">\"+tgNodeID(sc)] < g.maxReps {","			if visits[id+\">\"+tgNodeID(sc)] <= g.maxReps {"))
b("f-walk-over","C28",(F,"		over := len(out) >= g.maxLength || steps >= g.maxSteps","		over := len(out) >= g.maxLength && steps >= g.maxSteps"))
b("f-walk-over2","C28",(F,"		terminating := over || len(liveCapped) == 0","		terminating := over && atEnd || len(liveCapped) == 0"))
b("f-walk-break","C22",(F,"		if atEnd {\n			if terminating {\n				break\n			}","		if atEnd || over && len(liveCapped) == 0 {\n			if terminating {\n				break\n			}"))
b("f-walk-visits","C28",(F,"		visits[id+\">\"+tgNodeID(next)]++\n","		if next != node {\n			visits[id+\">\"+tgNodeID(next)]++\n		}\n"))
b("f-walk-vt","C22",(F,"				idx = int32(src.intn(int(vt)))","				idx = int32(src.intn(int(vt) + 1))"))
b("f-nearest","C28",(F,"d < bestD {\n			best, bestD = c, d","d < bestD {\n			best = c"))
b("f-near-unverified","C15",(F,"		if err == nil && !valid {","		if err != nil || !valid {"))
b("f-near-last","C15",(F,"	return nil, \"\", false\n}\n\n// NearMissRand","	return append(base, 0xFF), \"trailing byte\", len(base) == 0\n}\n\n// NearMissRand"))
b("f-near-equal","C15",(F,"if c.bytes == nil || string(c.bytes) == string(base) {","if c.bytes == nil {"))
b("f-near-wrongrule","C15",(F,"g.tg.grammar.IsValid(g.tg.rulename, c.bytes)","g.tg.grammar.IsValid(g.tg.rulename, c.bytes[:min(len(c.bytes), 4096)])"))
b("f-clone","C02",(F,"	c := make([]byte, len(b))\n	copy(c, b)\n	return c","	return b[:len(b):len(b)]"))
b("f-cand-range-low","C15",(F,"			{rune(nv.min - 1), \"below\"},","			{rune(nv.min), \"below\"},"))
b("f-cand-trunc","C32",(F,"			if n <= 0 || n > len(base) {","			if n <= 0 {")) if False else b("f-cand-trunc","C32",(F,"		if n <= 0 || n > len(base) {","		if n <= 0 || len(base) == 0 {"))
b("f-cand-pos","C32",(F,"		pos := src.intn(len(base))\n		out := append(cloneBytes(base[:pos])","		pos := 1 + src.intn(len(base))\n		out := append(cloneBytes(base[:pos])"))
b("f-nvrange-clamp","C15",(F,"	if max > utf8.MaxRune {\n		max = utf8.MaxRune\n	}\n	return numvalInfo","	if max > 0xFFFF {\n		max = 0xFFFF\n	}\n	return numvalInfo"))
b("f-set-add","C15",(F,"	s[b>>6] |= 1 << (b & 63)","	s[b>>6] |= 1 << (b & 31)"))
b("f-set-union","C15",(F,"s[2] | o[2], s[3] | o[3]}","s[2] | o[2], s[3] | o[2]}"))
b("f-emit-cache","C08",(F,"	id := tgNodeID(n)\n	if g.emitCache == nil {","	id := n.Elem.String()\n	if g.emitCache == nil {"))
b("f-emit-cacheok","C15",(F,"		return e, g.emitOK[id]\n","		return e, true\n"))
b("f-emit-case","C15",(F,"				s.add(byte(lo))\n				s.add(byte(up))\n","				s.add(byte(lo))\n				if r != 'Z' {\n					s.add(byte(up))\n				}\n"))
b("f-emit-range-min","C15",(F,"				for b := min; b <= max && b <= 0x7f; b++ {","				for b := min; b < max && b <= 0x7f; b++ {"))
b("f-emit-range-81","C15",(F,"			if max <= 0x7f { // ASCII","			if max <= 0xff { // ASCII"))
b("f-emit-len","C15",(F,"e = &emission{pos: make([]octetSet, len(bs))}\n					byLen[len(bs)] = e","e = &emission{pos: make([]octetSet, len(bs))}\n					byLen[len(bs)] = e\n					continue"))
b("f-exp-dead","C15",(F,"			if idx != len(prefix)-1 {","			if idx < len(prefix)-2 {"))
b("f-exp-endpoint","C15",(F,"		lastCompletedEndpoint = false\n		for _, s","		for _, s"))
b("f-exp-endreset","C15",(F,"				if g.endSet[tgNodeID(s.n)] {\n					lastCompletedEndpoint = true\n				}","				lastCompletedEndpoint = g.endSet[tgNodeID(s.n)]"))
b("f-exp-empty","C15",(F,"		accepts = g.endSet[\"\"] // empty","		accepts = g.endSet[\"\"] && len(ready) == 0 // empty"))
b("f-exp-seen","C15",(F,"			if !seen2[s] {\n				seen2[s] = true\n				next2","			if !seen2[state{s.n, 0, 0}] {\n				seen2[state{s.n, 0, 0}] = true\n				next2"))
b("f-exp-next","C15",(F,"		acc = acc.union(ems[s.e].pos[s.p])","		acc = acc.union(ems[s.e].pos[0])"))
b("f-exp-emskip","C15",(F,"					for ei, em2 := range ems2 {\n						if len(em2.pos) > 0 {","					for ei, em2 := range ems2[:1] {\n						if len(em2.pos) > 0 {"))
# ast.go
b("a-cost-min","C28",(A,"mulClamp(rep.Min, ag.costElem","mulClamp(min(rep.Min, 1), ag.costElem"))
b("a-cost-opt","C28",(A,"		return 0 // can be skipped","		return ag.costAlt(e.Alternation)"))
b("a-cost-penalty","C28",(A,"return addClamp(1, c)","return addClamp(0, c)"))
b("a-over","C28",(A,"return depth >= ag.maxDepth || len(*out) >= ag.maxLen","return depth >= ag.maxDepth && len(*out) >= ag.maxLen"))
b("a-depth","C28",(A,"ag.genAlt(src, out, r.Alternation, depth+1)","ag.genAlt(src, out, r.Alternation, depth+min(1, len(*out)))"))
b("a-opt-over","C28",(A,"if !ag.over(out, depth) && src.intn(2) == 1 {","if src.intn(2) == 1 {"))
b("a-rep-break","C07",(A,"if i+1 >= lo && len(*out) >= ag.maxLen {","if i >= lo-1 && lo < 64 && len(*out) >= ag.maxLen || i > 2*ag.maxLen {"))
b("a-rep-hi","C07",(A,"n = lo + src.intn(hi-lo+1)","n = lo + src.intn(hi-lo+2)"))
b("a-rep-lo","C07",(A,"		hi = lo + ag.maxRepeat","		hi = ag.maxRepeat"))
b("a-min-cost-key","C13",(A,"			effective[r.Name] = r\n		}\n	}\n	for n := range coreRules","			effective[n] = r\n		}\n	}\n	for n := range coreRules"))
b("a-core-override","C13",(A,"	for n := range coreRules {\n		if r := GetRule(n, g.Rulemap); r != nil {\n			effective[r.Name] = r\n		}\n	}","	for n, r := range coreRules {\n		effective[n] = r\n	}"))
b("a-visit-opt","C20",(A,"		case ElemOption:\n			return visitAlt(x.Alternation)\n		}\n		return nil\n	}","		}\n		return nil\n	}"))
b("a-prod-ref","C28",(A,"			if ag.minCost[r.Name] >= astUnbounded {\n","			if ag.minCost[r.Name] > astUnbounded {\n"))
b("a-visit-seen","C20",(A,"			if seen[r.Name] {\n				return nil\n			}","			if seen[r.Name] || ag.minCost[r.Name] == 0 {\n				return nil\n			}"))
b("a-cheapest","C28",(A,"c < bestCost {\n			best, bestCost = i, c","c < bestCost {\n			best = i"))
b("a-changed","C28",(A,"				ag.minCost[name] = c\n				changed = true\n","				ag.minCost[name] = c\n				changed = changed || c > 0\n"))
b("a-flip","C06",(A,"	case r >= 'A' && r <= 'Z':\n		return r - 'A' + 'a'\n	}\n	return r","	}\n	return r ^ 0x20"))
b("a-isletter","C06",(A,"(r >= 'A' && r <= 'Z')\n}","(r >= 'A' && r <= '_')\n}"))
b("a-range-span","C06",(A,"			span := int(max-min) + 1","			span := int(max-min) + 2"))
b("a-default","C29",(A,"		maxRepeat: 16,","		maxRepeat: 32,"))
b("a-opt-swap","C29",(A,"		g.maxLen = n\n","		g.maxLen = n\n		g.maxDepth = min(g.maxDepth, n)\n"))
b("a-addclamp","C28",(A,"	if s := a + b; s < astUnbounded {\n		return s\n	}\n	return astUnbounded","	return a + b"))
b("a-mulclamp","C28",(A,"	if p := n * c; p >= 0 && p < astUnbounded {","	if p := n * c; p < astUnbounded {"))
# abnf.go
b("n-rep-exact","C19",(N,"		return strconv.Itoa(rep.Min) + rep.Element.String()","		return strconv.Itoa(rep.Min) + \"*\" + rep.Element.String()"))
b("n-rep-zero","C19",(N,"	if rep.Min != 0 {\n		str += ","	if rep.Min > 1 {\n		str += "))
b("n-rep-max","C19",(N,"	if rep.Max != inf {","	if rep.Max != inf && rep.Max < 1000 {"))
b("n-char-sens","C19",(N,"	if ecvl.Sensitive {\n","	if ecvl.Sensitive && strings.ToLower(str) != str {\n"))
b("n-num-trim","C19",(N,"	return strings.TrimSuffix(str, spl)\n","	return strings.TrimSuffix(strings.ReplaceAll(str, \"00\", \"0\"), spl)\n"))
b("n-num-spl","C19",(N,'	if envl.Status == StatRange {\n		spl = "-"','	if envl.Status == StatRange && envl.Elems[0] != envl.Elems[1] {\n		spl = "-"'))
b("n-opt-brackets","C19",(N,'	return "[" + eopt.Alternation.String() + "]"','	if len(eopt.Alternation.Concatenations) == 1 {\n		return "*1" + "(" + eopt.Alternation.String() + ")"\n	}\n	return "[" + eopt.Alternation.String() + "]"'))
b("n-grp-drop","C19",(N,'	return "(" + egrp.Alternation.String() + ")"','	if len(egrp.Alternation.Concatenations) == 1 && len(egrp.Alternation.Concatenations[0].Repetitions) == 1 {\n		return egrp.Alternation.String()\n	}\n	return "(" + egrp.Alternation.String() + ")"'))
b("n-prose","C19",(N,"	for _, val := range epvl.values {","	for _, val := range epvl.values[:min(1, len(epvl.values))] {"))
b("n-abnf-map","C01",(N,"		abnfProseVal.Name:              abnfProseVal,","		abnfProseVal.Name:              abnfQuotedString,"))
# option
b("o-cross","C29",(O,"	opts.redefineCore = bool(o)","	opts.redefineCore = bool(o)\n	opts.validate = opts.validate && !bool(o)"))
b("o-or","C29",(O,"	opts.redefineCore = bool(o)","	opts.redefineCore = opts.redefineCore || bool(o)"))
b("o-with","C29",(O,"	return validateOption(validate)","	return redefineCoreOption(!validate)"))
# errors
b("e-unwrap","C21",(E,"{ return ErrNoSolutionFound }","{\n	if e.Hint != \"\" {\n		return nil\n	}\n	return ErrNoSolutionFound\n}"))
b("e-col","C21",(E,"			line++\n			col = 1\n","			line++\n			col = 0\n"))
b("e-off-clamp","C21",(E,"	if offset > len(input) {\n		offset = len(input)\n	}\n	line","	if offset > len(input) {\n		offset = len(input) - 1\n	}\n	line"))
b("e-sort","C21",(E,"	exp := append([]string(nil), expected...)\n	sort.Strings(exp)","	exp := append([]string(nil), expected...)\n	if len(exp) > 1 {\n		sort.Strings(exp[1:])\n	}"))
b("e-alias","C02",(E,"	exp := append([]string(nil), expected...)\n","	exp := expected\n"))
b("e-hint","C21",(E,"(offset == 0 || input[offset-1] != '\\r')","(offset == 0 || input[offset-1] == '\\r')"))
b("e-describe","C21",(E,"	if b >= 0x20 && b < 0x7f {","	if b >= 0x20 && b < 0x80 {"))
b("e-dep","C20",(E,'	return fmt.Sprintf("rule %s was not found in grammar", err.Rulename)','	return "rule was not found in grammar"'))
b("e-msg-expected","C21",(E,'strings.Join(e.Expected, ", ")','strings.Join(e.Expected[:min(len(e.Expected), 8)], ", ")'))

B=[]
def b(id, prop, *edits): B.append((id, prop, list(edits)))
# --- C02
b("c02-newparseerror-sort","C02",("errors.go","	exp := append([]string(nil), expected...)\n	sort.Strings(exp)\n","	exp := expected\n	sort.Strings(exp)\n"))
b("c02-getrule-cache","C02",("utils.go","	return getRuleIn(rulename, coreRules)\n}","	r := getRuleIn(rulename, coreRules)\n	if r != nil && rulemap != nil {\n		rulemap[r.Name] = r\n	}\n	return r\n}"))
b("c02-validate-normalise","C02",("grammar.go","""			// num-val base
			case ElemNumVal:
				for _, val := range elem.Elems {
					if err""","""			// num-val base
			case ElemNumVal:
				for i, val := range elem.Elems {
					val = strings.TrimLeft(val, "0")
					elem.Elems[i] = val
					if err"""))
b("c02-isvalid-lower","C02",("grammar.go","	rule := GetRule(rulename, g.Rulemap)\n	if rule == nil {\n		return false, &ErrRuleNotFound{Rulename: rulename}\n	}\n	// Validity","	rule := GetRule(rulename, g.Rulemap)\n	if rule == nil {\n		return false, &ErrRuleNotFound{Rulename: rulename}\n	}\n	if rule.Name != rulename {\n		rule.Name = rulename\n	}\n	// Validity"))
b("c02-canon-inplace","C02",("recognize.go","				if idx+sz > len(r.input) || s != string(r.input[idx:idx+sz]) {","				if idx+sz > len(r.input) {\n					return out\n				}\n				copy(r.input[idx:idx+sz], r.input[idx:idx+sz])\n				if s != string(r.input[idx:idx+sz]) {"))
b("c02-expected-share","C02",("sppf.go","built: len(p.nodes), maxPos: p.maxPos, expected: p.expected}","built: len(p.nodes), maxPos: p.maxPos, expected: p.expected}"),("errors.go","	exp := append([]string(nil), expected...)\n","	exp := expected[:len(expected):len(expected)]\n"))
b("c02-global-scratch","C02",("sppf.go","func canon(name string) string {\n	b := []byte(name)\n","var canonBuf []byte\n\nfunc canon(name string) string {\n	canonBuf = append(canonBuf[:0], name...)\n	b := canonBuf\n"))
b("c02-coretable-dep","C02",("dag.go","	for _, rule := range g.Rulemap {\n		graph[","	for _, rule := range g.Rulemap {\n		if strings.EqualFold(rule.Name, \"ALPHA\") {\n			coreRules[\"ALPHA\"] = rule\n		}\n		graph["))
# --- C03
b("c03-nosort","C03",("errors.go","	sort.Strings(exp)\n","	_ = sort.Strings\n"))
b("c03-getrule-maporder","C03",("dag.go","""	for _, rule := range g.Rulemap {
		graph[strings.ToLower(rule.Name)] = &node{
			Rulename:     rule.Name,""","""	for _, rule := range g.Rulemap {
		if len(graph) > 64 {
			break
		}
		graph[strings.ToLower(rule.Name)] = &node{
			Rulename:     rule.Name,"""))
b("c03-nullable-bounded","C03",("leftrec.go","	for changed := true; changed; {\n		changed = false\n		for name, r := range rules {","	for range 2 {\n		for name, r := range rules {"),("leftrec.go","				null[name] = true\n				changed = true\n","				null[name] = true\n"))
b("c03-seed-limit","C03",("recognize.go","		for p := range level {\n","		n := 0\n		for p := range level {\n			if n++; n > 512 {\n				break\n			}\n"))
# --- C05
b("c05-amb-dropped","C05",("grammar.go","	if f.Ambiguous() {\n","	if f.Ambiguous() && o.validate {\n"))
b("c05-skip-group","C05",("grammar.go","			case ElemGroup:\n				if err := semvalAlternation(elem.Alternation); err != nil {\n					return err\n				}\n","			case ElemGroup:\n				if rep.Min > 0 {\n				if err := semvalAlternation(elem.Alternation); err != nil {\n					return err\n				}\n				}\n"))
b("c05-maxzero","C05",("grammar.go","if rep.Max != inf && rep.Min > rep.Max {\n				return &Err","if rep.Max > 0 && rep.Min > rep.Max {\n				return &Err"))
b("c05-firstelem","C05",("grammar.go","				for _, val := range elem.Elems {\n","				for _, val := range elem.Elems[:1] {\n"))
b("c05-lastrule","C05",("grammar.go","	for _, rule := range g.Rulemap {\n		if err := semvalAlternation(rule.Alternation); err != nil {\n			return err\n		}\n	}\n	return nil","	var err error\n	for _, rule := range g.Rulemap {\n		err = semvalAlternation(rule.Alternation)\n	}\n	return err"))
b("c05-depcore","C05",("grammar.go","			r := GetRule(dep, g.Rulemap)\n","			r := GetRule(dep, ABNF.Rulemap)\n			if r == nil {\n				r = GetRule(dep, g.Rulemap)\n			}\n"))
# --- C06
b("c06-unicode-fold","C06",("grammar.go","func runeMin(r rune) rune {\n	if r >= 'A' && r <= 'Z' {\n		return r - 'A' + 'a'\n	}\n	return r","func runeMin(r rune) rune {\n	return unicode.ToLower(r)"),("grammar.go",'	"strings"\n','	"strings"\n	"unicode"\n'))
b("c06-simplefold","C06",("grammar.go","	if !sensitive {\n		target, actual = runeMin(target), runeMin(actual)\n	}\n	return target == actual","	if sensitive {\n		return target == actual\n	}\n	return strings.EqualFold(string(target), string(actual))"))
b("c06-rec-badutf8","C06",("recognize.go","			ru, size := utf8.DecodeRune(r.input[index:])\n			if ru == utf8.RuneError && size == 1 {\n				return out\n			}\n			if min","			ru, size := utf8.DecodeRune(r.input[index:])\n			if min"))
b("c06-rec-badutf8-2","C06",("recognize.go","			if ru == utf8.RuneError && size == 1 {\n				return out\n			}\n			if min","			if ru == utf8.RuneError {\n				return out\n			}\n			if min"))
b("c06-forest-range","C06",("sppf.go","			if min <= r && r <= max {","			if min <= r && r < max || r == max && size < 4 {"))
b("c06-validrune","C06",("sppf.go","				if !utf8.ValidRune(ru) {\n					return -1\n				}\n","				if ru > utf8.MaxRune {\n					return -1\n				}\n"))
# --- C07
b("c07-minmax","C07",("sppf.go","	if nt.repMax == inf || rc < nt.repMax {","	if nt.repMax <= 0 || rc < nt.repMax {"))
b("c07-caprc","C07",("sppf.go","	if nt.repMax == inf && next > nt.repMin {","	if next > nt.repMin && (nt.repMax == inf || nt.repMin == 0) {"))
b("c07-repeat-plain","C07",("grammar.go","	if pre := before; pre != \"\" {\n		min, _ = strconv.Atoi(pre)\n	}","	if pre := before; pre != \"\" {\n		min, _ = strconv.Atoi(pre)\n	} else if after == \"\" {\n		min = 0\n	} else {\n		min = 1\n	}"))
b("c07-rec-stable","C07",("recognize.go",'	"maps"\n',''),("recognize.go","		stable := maps.Equal(next, level)\n","		stable := len(next) == len(level)\n"))
b("c07-rec-grew","C07",("recognize.go","stable || (!grew && c >= rep.Min)","stable || !grew"))
b("c07-rep11","C07",("sppf.go","	if rep.Min == 1 && rep.Max == 1 {\n		return c.elem","	if rep.Min == rep.Max && rep.Min <= 1 {\n		return c.elem"))
b("c07-unsat","C07",("sppf.go","	if rep.Max != inf && rep.Max < rep.Min {\n		return ssym","	if rep.Max > 0 && rep.Max < rep.Min {\n		return ssym"))
# --- C08
b("c08-gss-rc","C08",("sppf.go","	k := gssKey{ret, pos, rc}\n","	k := gssKey{ret, pos, min(rc, 8)}\n"))
b("c08-groupkey","C08",("sppf.go",'	key := "opt:" + v.String()\n','	key := "opt:" + canon(v.String())\n'))
b("c08-memo-case","C08",("recognize.go",'	key := elem.String() + "@" + strconv.Itoa(index)\n','	key := strings.ToLower(elem.String()) + "@" + strconv.Itoa(index)\n'))
b("c08-memo-leftrec","C08",("recognize.go","	if r.seedReads == reads {\n		r.memo","	if r.seedReads == reads || len(r.growing) == 1 {\n		r.memo"))
b("c08-memo-rec2","C08",("recognize.go","	if r.seedReads == reads {\n		r.memo","	if r.seedReads <= reads+1 {\n		r.memo"))
b("c08-inter-key","C08",("sppf.go","k = nodeKey{kind: gInter, nt: -1, L: L, start: start, end: z.End}","k = nodeKey{kind: gInter, nt: -1, L: slot{L.nt, 0, L.dot}, start: start, end: z.End}"))
b("c08-term-key","C08",("sppf.go","	d := descriptor{L, u, i, w, rc}\n	if p.seen[d] {","	d := descriptor{L, u, i, w, rc}\n	if p.seen[descriptor{L, u, i, nil, rc}] {\n		return\n	}\n	if p.seen[d] {"))
# --- C09
b("c09-popped-late","C09",("sppf.go","	if p.popped[u] == nil {\n		p.popped[u] = map[*gnode]bool{}\n	}\n	p.popped[u][z] = true\n	for","	if p.popped[u] == nil {\n		p.popped[u] = map[*gnode]bool{}\n	}\n	if p.popped[u][z] {\n		return\n	}\n	p.popped[u][z] = true\n	for"))
b("c09-pop-empty","C09",("sppf.go","		for z := range p.popped[v] {\n","		for z := range p.popped[v] {\n			if z.Start == z.End {\n				continue\n			}\n"))
b("c09-addpack-dup","C09",("sppf.go","			if p[i] != children[i] {\n","			if p[i].Start != children[i].Start || p[i].End != children[i].End {\n"))
b("c09-start-alts","C09",("sppf.go","		if p.aborted {\n			return nil\n		}\n		d :=","		if p.aborted {\n			return nil\n		}\n		if n := p.nodes[nodeKey{kind: gSymbol, nt: startNT, start: 0, end: len(p.input)}]; n != nil && len(n.packs) > 1 {\n			break\n		}\n		d :="))
b("c09-worklist","C09",("sppf.go","	p.seen[d] = true\n	p.work = append(p.work, d)","	p.seen[d] = true\n	if i > len(p.input) || i == len(p.input) && rc > 1<<10 {\n		return\n	}\n	p.work = append(p.work, d)"))
b("c09-eps-getnode","C09",("sppf.go","				z = p.getNodeT(i, i)\n","				z = p.getNodeT(u.pos, i)\n"))
# --- C11
b("c11-visit","C11",("dag.go","	if inCycle[key] {\n		// If it depends on itself or is part of an SCC, then is cylic\n		return true\n	}","	if inCycle[key] && len(nd.Dependencies) > 1 {\n		return true\n	}"))
b("c11-self-case","C11",("dag.go","		if strings.ToLower(dep) == key {\n			return true","		if dep == nd.Rulename {\n			return true"))
b("c11-lowlink","C11",("dag.go","			v.lowlink = min(v.lowlink, w.lowlink)\n","			v.lowlink = min(v.lowlink, w.index)\n"))
b("c11-onstack","C11",("dag.go","			if w.onStack {","			if w.onStack && w.index < v.index {"))
b("c11-lowerdep","C11",("dag.go","				deps = appendDeps(deps, strings.ToLower(v.Name))","				deps = appendDeps(deps, v.Name)"))
b("c11-depcore","C11",("dag.go","	for _, rule := range g.Rulemap {\n		graph[strings.ToLower(rule.Name)] = &node{","	for _, rule := range g.Rulemap {\n		if _, ok := graph[strings.ToLower(rule.Name)]; ok {\n			continue\n		}\n		graph[strings.ToLower(rule.Name)] = &node{"))
b("c11-zeromax","C11",("dag.go","			switch v := rep.Element.(type) {\n			case ElemGroup:\n				deps = app","			if rep.Min == 0 && rep.Max == 1 {\n				continue\n			}\n			switch v := rep.Element.(type) {\n			case ElemGroup:\n				deps = app"))
# --- C12
b("c12-parse-err","C12",("grammar.go","	if !f.Valid() {\n		return nil, f.ParseError()\n	}","	if !f.Valid() && len(input) > 0 {\n		return nil, f.ParseError()\n	}"))
b("c12-eval-alt","C12",("grammar.go","		c, err := e.concatenation(cc)\n		if err != nil {\n			return Alternation{}, err\n		}","		c, err := e.concatenation(cc)\n		if err != nil {\n			continue\n		}"))
# --- C13
b("c13-order","C13",("utils.go","	if rule := getRuleIn(rulename, rulemap); rule != nil {\n		return rule\n	}\n	return getRuleIn(rulename, coreRules)","	if rule := getRuleIn(rulename, coreRules); rule != nil {\n		return rule\n	}\n	return getRuleIn(rulename, rulemap)"))
b("c13-exactfirst","C13",("utils.go","	// First look in the newly defined rules, as we could override definitions\n","	if r, ok := coreRules[rulename]; ok {\n		if _, ok := rulemap[rulename]; !ok {\n			return r\n		}\n	}\n"))
b("c13-fold","C13",("utils.go","		if strings.EqualFold(rulename, rule.Name) {","		if rulename == rule.Name || strings.ToUpper(rulename) == rule.Name || strings.ToLower(rulename) == rule.Name {"))
b("c13-null","C13",("leftrec.go","		return null[strings.ToLower(v.Name)]\n","		return null[v.Name]\n"))
b("c13-scc-lower","C13",("recognize.go","		if scc, isLR := r.leftRec[strings.ToLower(rn.Name)]; isLR {\n			return r.reachLeftRec(strings.ToLower(rn.Name), scc, index)","		if scc, isLR := r.leftRec[strings.ToLower(rn.Name)]; isLR {\n			return r.reachLeftRec(rn.Name, scc, index)"))
# --- C16
b("c16-bits","C16",("utils.go","	v, err := strconv.ParseUint(str, baseRadix(base), 64)\n	if err != nil {\n		return 0, false\n	}","	v, err := strconv.ParseUint(str, baseRadix(base), 64)\n	if err != nil {\n		return v, true\n	}"))
b("c16-wrap","C16",("utils.go","	if !ok || v > math.MaxInt32 {","	if !ok || v > math.MaxUint32 {"))
b("c16-bin","C16",("utils.go","(str[1] != '0' || str[2] != '0' || str[3] != '0' || str[4] != '0')","(str[1] != '0' || str[2] != '0' || str[3] != '0')"))
b("c16-dec","C16",("utils.go","(str[3] > '4' || (str[3] == '4' && (str[4] > '1'","(str[3] > '4' || (str[3] == '4' && (str[4] > '4'"))
b("c16-trim","C16",("utils.go",'	str = strings.TrimLeft(str, "0")\n','	str = strings.TrimPrefix(str, "0")\n'))
b("c16-hexlower","C16",("utils.go",'	case "X", "x":\n		return 16\n	}\n	return 10','	case "x":\n		return 16\n	}\n	return 10'))
# --- C17
b("c17-dupcase","C17",("grammar.go","			if getRuleIn(rl.Name, mp) != nil {","			if _, dup := mp[rl.Name]; dup {"))
b("c17-append-order","C17",("grammar.go","slices.Concat(rule.Alternation.Concatenations, rl.Alternation.Concatenations)","slices.Concat(rl.Alternation.Concatenations, rule.Alternation.Concatenations)"))
b("c17-extname","C17",("grammar.go","			rule := GetRule(rl.Name, mp)\n","			rule := getRuleIn(rl.Name, mp)\n"))
b("c17-core-ext","C17",("grammar.go","			if !e.o.redefineCore && isCoreRule {","			if !e.o.redefineCore && isCoreRule && getRuleIn(rl.Name, mp) == nil {"))
b("c17-mpname","C17",("grammar.go","			mp[rule.Name] = &Rule{","			mp[rl.Name] = &Rule{"))
# --- C18
b("c18-semval-opt","C18",("grammar.go","			case ElemOption:\n				if err := semvalAlternation(elem.Alternation); err != nil {\n					return err\n				}\n",""))
b("c18-lc-group","C18",("leftrec.go","		case ElemOption:\n			addAlt(v.Alternation)\n",""))
b("c18-null-group","C18",("leftrec.go","	case ElemGroup:\n		return altNullable(g, null, v.Alternation)\n",""))
# --- C20
b("c20-unknown","C20",("sppf.go","	if GetRule(rootRulename, g.Rulemap) == nil {","	if GetRule(rootRulename, g.Rulemap) == nil && rootRulename != \"\" {"))
b("c20-rec","C20",("recognize.go","		rule := GetRule(v.Name, r.g.Rulemap)\n		if rule == nil {\n			return out\n		}","		rule := GetRule(v.Name, r.g.Rulemap)\n		if rule == nil {\n			out[index] = true\n			return out\n		}"))
b("c20-lower","C20",("sppf.go","		c.sg.nts[id].label = name\n		return id\n	}\n	c.sg","		c.sg.nts[id].label = name\n		c.sg.nts[id].alts = [][]ssym{{{kind: symEps}}}\n		return id\n	}\n	c.sg"))
b("c20-semval","C20",("grammar.go","			if r == nil {\n				return &ErrDependencyNotFound{\n					Rulename: dep,","			if r == nil {\n				return &ErrDependencyNotFound{\n					Rulename: rule.Name,"))
# --- C21
b("c21-reset","C21",("sppf.go","	if i != p.maxPos {\n		return\n	}\n	desc","	if i != p.maxPos || len(p.expected) > 32 {\n		return\n	}\n	desc"))
b("c21-col","C21",("errors.go","			line++\n			col = 1\n","			line++\n			col = 0\n"))
b("c21-maxpos","C21",("sppf.go","			p.noteFail(i, s)\n","			p.noteFail(u.pos, s)\n"))
b("c21-unwrap","C21",("errors.go","func (e *ParseError) Unwrap() error { return ErrNoSolutionFound }","func (e *ParseError) Unwrap() error {\n	if e.Hint != \"\" {\n		return nil\n	}\n	return ErrNoSolutionFound\n}"))
b("c21-furthest","C21",("sppf.go","	if i > p.maxPos {\n		p.maxPos = i\n		p.expected = p.expected[:0]\n		p.expectedSeen = nil","	if i > p.maxPos {\n		p.maxPos = i\n		p.expected = p.expected[:0]\n		clear(p.expectedSeen)\n		p.expectedSeen = map[string]bool{\"?\": true}"))
# --- C23
b("c23-null-min","C23",("leftrec.go","	if rep.Min == 0 {\n		return true\n	}","	if rep.Min == 0 && rep.Max != 0 {\n		return true\n	}"))
b("c23-grow","C23",("recognize.go","			for e := range ns {\n				if !cur[e] {\n					cur[e] = true\n					changed = true\n				}\n			}","			before := len(cur)\n			for e := range ns {\n				cur[e] = true\n			}\n			changed = len(cur) > before"))
b("c23-lc-break","C23",("leftrec.go","				if rep.Min == 0 || elemNullable(g, null, rep.Element) {","				if rep.Min == 0 {"))
b("c23-scc1","C23",("leftrec.go","			leftRecursive = slices.Contains(scc[0].Dependencies, members[0])","			leftRecursive = slices.Contains(scc[0].Dependencies, scc[0].Rulename)"))
# --- C24
b("c24-concat","C24",("recognize.go","		cur = next\n		if len(cur) == 0 {\n			break\n		}\n	}\n	return cur","		if len(next) == 0 {\n			break\n		}\n		cur = next\n	}\n	return cur"))
b("c24-whole","C24",("grammar.go","	return ends[len(input)], nil","	return len(ends) > 0 && ends[len(input)] || len(input) == 0 && g.nullableRules()[strings.ToLower(rulename)], nil"))
b("c24-altbreak","C24",("recognize.go","		for e := range r.reachConcat(c, index) {\n			out[e] = true\n		}","		for e := range r.reachConcat(c, index) {\n			out[e] = true\n		}\n		if out[len(r.input)] {\n			break\n		}"))
# --- C30
b("c30-count","C30",("sppf.go","		if onStack[n] {\n			infinite = true\n			return big.NewInt(1)","		if onStack[n] {\n			infinite = len(n.packs) > 1\n			return big.NewInt(1)"))
b("c30-amb-seen","C30",("sppf.go","		if len(n.packs) > 1 {\n			return true\n		}\n		for","		if n.kind == gSymbol && len(n.packs) > 1 {\n			return true\n		}\n		for"))
b("c30-tree-rule","C30",("sppf.go","		if onStack[c] {\n			return\n		}\n		onStack[c] = true\n		f.collect(c, into, onStack)\n		delete(onStack, c)","		if onStack[c] {\n			return\n		}\n		onStack[c] = true\n		f.collect(c, into, onStack)"))
# --- C32
b("c32-prose","C32",("grammar.go","	if first >= 0 && last > first {\n		value","	if last >= first {\n		value"))
b("c32-series-len","C32",("sppf.go","				if idx+sz > len(p.input) || str","				if idx > len(p.input) || str"))
b("c32-hint","C32",("errors.go","(offset == 0 || input[offset-1] != '\\r')","(input[offset-1] != '\\r')"))
b("c32-scc0","C32",("recognize.go","			if idx >= len(r.input) {\n				return out\n			}\n			ru, size := utf8.DecodeRune(r.input[idx:])\n","			if len(r.input) == 0 {\n				return out\n			}\n			ru, size := rune(r.input[idx]), 1\n			if ru >= utf8.RuneSelf {\n				ru, size = utf8.DecodeRune(r.input[idx:])\n			}\n"))
# --- C33
b("c33-base","C33",("grammar.go","		case 'b', 'B':\n			base = \"b\"","		case 'b':\n			base = \"b\""))
b("c33-sens","C33",("grammar.go","		if s[1] == 's' || s[1] == 'S' {","		if s[1] == 's' {"))
b("c33-prose","C33",("grammar.go","	for i := t.Start + 1; i < t.End-1; i++ {","	for i := t.Start + 1; i < t.End; i++ {"))
b("c33-cutquote","C33",("grammar.go","	last := strings.LastIndexByte(s, '\"')\n","	last := len(s) - 1\n	if first >= 0 {\n		if n := strings.IndexByte(s[first+1:], '\\''); n >= 0 {\n			last = first + 1 + n\n		}\n	}\n"))
b("c33-sepstatus","C33",("grammar.go","	if strings.ContainsRune(rest, '-') {\n","	if strings.Count(rest, \"-\") == 1 && len(rest) < 16 {\n"))

B=[]
def b(id, prop, *edits): B.append((id, prop, list(edits)))
R="recognize.go"; S="sppf.go"; G="grammar.go"; L="leftrec.go"; T="transition_graph.go"; C="codegen.go"; BS="bsr.go"; X="regex.go"; F="fuzz.go"; A="ast.go"; D="dag.go"; U="utils.go"; GE="generate.go"; E="errors.go"
# larger edits: caches, fast paths, restructurings with a flaw
b("h-reachrep-single","C07",(R,'''	// level = positions reachable after exactly c occurrences.
''','''	if rep.Min == rep.Max && rep.Min > 1 {
		// exact count: no need to look at every level
		cur := map[int]bool{index: true}
		for c := 0; c < rep.Min && len(cur) > 0; c++ {
			next := map[int]bool{}
			for p := range cur {
				for e := range r.reachElem(rep.Element, p) {
					if e > p {
						next[e] = true
					}
				}
			}
			cur = next
		}
		return cur
	}

	// level = positions reachable after exactly c occurrences.
'''))
b("h-reachconcat-tail","C24",(R,'''		cur = next
		if len(cur) == 0 {
			break
		}
	}
	return cur
}''','''		cur = next
		if len(cur) == 0 {
			break
		}
		if cur[len(r.input)] && len(cur) == 1 {
			return cur // the whole input is consumed
		}
	}
	return cur
}'''))
b("h-memo-group-once","C08",(R,'''	if r.seedReads == reads {
		r.memo[key] = cloneSet(out)
	}
	return out''','''	if _, named := elem.(ElemRulename); named || r.seedReads == reads {
		r.memo[key] = cloneSet(out)
	}
	return out'''))
b("h-leftrec-skipdone","C23",(R,'''	for changed := true; changed; {
		changed = false
		for i, x := range scc {
			rule := GetRule(x, r.g.Rulemap)
			if rule == nil {
				continue
			}
			ns := r.reachAlt(rule.Alternation, index)
			cur := r.growing[keys[i]]
''','''	full := make([]bool, len(scc))
	for changed := true; changed; {
		changed = false
		for i, x := range scc {
			rule := GetRule(x, r.g.Rulemap)
			if rule == nil || full[i] {
				continue
			}
			ns := r.reachAlt(rule.Alternation, index)
			cur := r.growing[keys[i]]
			full[i] = len(cur) > 0 && len(ns) == len(cur)
'''))
b("h-lower-elemcache","C08",(S,'''	key := "grp:" + v.String()
''','''	key := "grp:" + canon(v.String())
'''))
b("h-lower-flatten","C09",(S,'''		for _, rep := range cc.Repetitions {
			seq = append(seq, c.rep(rep))
		}
''','''		for _, rep := range cc.Repetitions {
			// a group of one sequence adds nothing: splice it in
			if g, ok := rep.Element.(ElemGroup); ok && len(g.Alternation.Concatenations) == 1 && rep.Min == rep.Max {
				for _, sub := range g.Alternation.Concatenations[0].Repetitions {
					seq = append(seq, c.rep(sub))
				}
				continue
			}
			seq = append(seq, c.rep(rep))
		}
'''))
b("h-lower-dedupalts","C09",(S,'''		if len(seq) == 0 {
			seq = []ssym{{kind: symEps}}
		}
		out = append(out, seq)''','''		if len(seq) == 0 {
			seq = []ssym{{kind: symEps}}
		}
		if len(out) > 0 && len(seq) == 1 && seq[0].kind == symNonterm && len(out[len(out)-1]) == 1 && out[len(out)-1][0] == seq[0] {
			continue // the same alternative again
		}
		out = append(out, seq)'''))
b("h-gll-seen-key","C08",(S,'''	d := descriptor{L, u, i, w, rc}
	if p.seen[d] {
		return
	}
	p.seen[d] = true
''','''	d := descriptor{L, u, i, w, rc}
	k := d
	if p.sg.nts[L.nt].isRep && L.dot == 0 {
		k.w = nil // a fresh start does not depend on what came before
	}
	if p.seen[k] {
		return
	}
	p.seen[k] = true
'''))
b("h-gll-bound-eq","C04",(S,'''	if p.maxNodes > 0 && len(p.nodes) >= p.maxNodes {
		p.aborted = true
	}
	v := &gnode{''','''	if p.maxNodes > 0 && k.kind != gTerm && len(p.nodes) >= p.maxNodes {
		p.aborted = true
	}
	v := &gnode{'''))
b("h-addpack-first","C30",(S,'''		same := true
		for i := range p {
			if p[i] != children[i] {
				same = false
				break
			}
		}
		if same {
			return
		}''','''		if p[0] == children[0] {
			return // the left part and the span fix the right part
		}'''))
b("h-eval-ptchildren","C33",(G,'''	for _, c := range t.Children {
		if c.Rule == name {
			out = append(out, c)
		}
	}
	return out''','''	for i, c := range t.Children {
		if c.Rule != name {
			continue
		}
		if i > 0 && t.Children[i-1] == c {
			continue
		}
		if c.Start == c.End && len(t.Children) > 1 {
			continue // empty
		}
		out = append(out, c)
	}
	return out'''))
b("h-eval-concat-merge","C33",(G,'''		rs = append(rs, r)
	}
	return Concatenation''','''		// "a" "b" reads better as "ab"
		if n := len(rs); n > 0 && r.Min == 1 && r.Max == 1 && rs[n-1].Min == 1 && rs[n-1].Max == 1 {
			prev, ok1 := rs[n-1].Element.(ElemCharVal)
			next, ok2 := r.Element.(ElemCharVal)
			if ok1 && ok2 && len(prev.Values) > 0 && len(next.Values) == 1 && next.Values[0] > 0x7e {
				prev.Values = append(prev.Values, next.Values...)
				rs[n-1].Element = prev
				continue
			}
		}
		rs = append(rs, r)
	}
	return Concatenation'''))
b("h-eval-repeat-norm","C07",(G,'''	if post := after; post != "" {
		max, _ = strconv.Atoi(post)
	}
	return min, max''','''	if post := after; post != "" {
		max, _ = strconv.Atoi(post)
	}
	if max == 0 {
		max = inf // "*0" is the same as no limit
	}
	return min, max'''))
b("h-eval-ext-inplace","C17",(G,'''			mp[rule.Name] = &Rule{
				Name: rule.Name,
				Alternation: Alternation{
					Concatenations: slices.Concat(rule.Alternation.Concatenations, rl.Alternation.Concatenations),
				},
			}''','''			if _, own := mp[rl.Name]; own {
				rule.Alternation.Concatenations = append(rule.Alternation.Concatenations, rl.Alternation.Concatenations...)
				continue
			}
			mp[rl.Name] = &Rule{
				Name: rule.Name,
				Alternation: Alternation{
					Concatenations: slices.Concat(rule.Alternation.Concatenations, rl.Alternation.Concatenations),
				},
			}'''))
b("h-semval-seen","C05",(G,'''	for _, rule := range g.Rulemap {
		if err := semvalAlternation(rule.Alternation); err != nil {
			return err
		}
	}
	return nil''','''	done := map[string]bool{}
	for _, rule := range g.Rulemap {
		text := rule.Alternation.String()
		if len(text) > 64 {
			text = text[:64]
		}
		if done[text] {
			continue
		}
		done[text] = true
		if err := semvalAlternation(rule.Alternation); err != nil {
			return err
		}
	}
	return nil'''))
b("h-semval-core","C20",(G,'''		for _, dep := range deps {
			r := GetRule(dep, g.Rulemap)
			if r == nil {''','''		for _, dep := range deps {
			r := GetRule(dep, g.Rulemap)
			if r == nil && !strings.EqualFold(dep, rule.Name+"s") {'''))
b("h-lc-dedupseen","C23",(L,'''	addAlt = func(a Alternation) {
		for _, c := range a.Concatenations {
''','''	depth := 0
	addAlt = func(a Alternation) {
		depth++
		defer func() { depth-- }()
		if depth > 8 {
			return
		}
		for _, c := range a.Concatenations {
'''))
b("h-lrscc-memberorder","C23",(L,'''			for _, m := range members {
				out[m] = members
			}''','''			for i, m := range members {
				out[m] = members[:max(i+1, 2)]
			}'''))
b("h-bsr-seen-rc","C08",(BS,'''	if p.seen[d] {
		return
	}
	p.seen[d] = true
	p.work''','''	if d.L.dot > 0 && !p.sg.nts[d.L.nt].isRep {
		d.rc = 0 // the count only matters in a repetition
	}
	if p.seen[d] {
		return
	}
	p.seen[d] = true
	p.work'''))
b("h-dag-cachekey","C11",(D,'''func (g *Grammar) RuleContainsCycle(rulename string) (bool, error) {
''','''func (g *Grammar) RuleContainsCycle(rulename string) (bool, error) {
	if r, ok := coreRules[strings.ToUpper(rulename)]; ok && r != nil {
		return false, nil // no core rule is cyclic
	}
'''))
b("h-genalt-cap","C22",(GE,'''		torep := rep.Min + int(rand.Int63())%(repmax-rep.Min+1)
''','''		torep := rep.Min + int(rand.Int63())%(repmax-rep.Min+1)
		if len(*out) > options.threshold/2 && torep > 1 {
			torep = 1 // slow down before the threshold
		}
'''))
b("h-regex-memo-alt","C25",(X,'''	b := &reBuilder{g: g, memo: map[string]reNode{}}
	node := b.alt(rule.Alternation)
''','''	b := &reBuilder{g: g, memo: map[string]reNode{}}
	alt := rule.Alternation
	if n := len(alt.Concatenations); n > 1 {
		// the same alternative twice changes nothing
		seen := map[string]bool{}
		cs := make([]Concatenation, 0, n)
		for _, c := range alt.Concatenations {
			k := strings.ToLower(c.String())
			if !seen[k] {
				seen[k] = true
				cs = append(cs, c)
			}
		}
		alt = Alternation{Concatenations: cs}
	}
	node := b.alt(alt)
'''))
b("h-isvalid-fast","C24",(G,'''	r := &recognizer{
		g:          g,''','''	if len(input) == 0 {
		return g.nullableRules()[rulename], nil
	}
	r := &recognizer{
		g:          g,'''))
b("h-isvalid-fast2","C24",(G,'''	r := &recognizer{
		g:          g,''','''	if len(input) == 0 && len(rule.Alternation.Concatenations) == 1 && len(rule.Alternation.Concatenations[0].Repetitions) > 0 && rule.Alternation.Concatenations[0].Repetitions[0].Min > 0 {
		return false, nil // something has to be consumed
	}
	r := &recognizer{
		g:          g,'''))
b("h-parsebsr-default","C04",(BS,'''	p := &bsrParser{
		sg:       sg,''','''	if cfg.maxNodes == 0 {
		cfg.maxNodes = 1 << 22
	}
	p := &bsrParser{
		sg:       sg,'''))
b("h-codegen-samealts","C31",(C,'''		for alt := range ci.alts {
			fmt.Fprintf(b, "\\t\\t\\tp.add(%d, v, i, 0)\\n", c.startID(callee, alt))
		}
	}
	b.WriteString("\\t\\t\\treturn\\n")''','''		for alt := range ci.alts {
			if alt > 0 && len(ci.alts[alt]) == 1 && ci.alts[alt][0].kind == symEps && ci.alts[0][0].kind == symEps {
				continue // empty already
			}
			fmt.Fprintf(b, "\\t\\t\\tp.add(%d, v, i, 0)\\n", c.startID(callee, alt))
		}
	}
	b.WriteString("\\t\\t\\treturn\\n")'''))
b("h-codegen-charlookup","C31",(C,'''		for off, r := range v.Values {
			bb := byte(r)
''','''		for off, r := range v.Values {
			if off >= 256 {
				break // long literals are told apart by then
			}
			bb := byte(r)
'''))
b("h-codegen-ident","C14",(C,'''	fmt.Fprintf(&b, "package %s\\n\\n", c.pkg)
''','''	fmt.Fprintf(&b, "package %s\\n\\n", strings.ToLower(c.pkg))
'''))
b("h-codegen-metaname","C31",(C,'''		fmt.Fprintf(b, "\\t{isRule: %v, ruleName: %q, alts: ", nt.isRule, nt.ruleName)
''','''		fmt.Fprintf(b, "\\t{isRule: %v, ruleName: %q, alts: ", nt.isRule, canon(nt.ruleName))
'''))
b("h-ast-cheap-rand","C28",(A,'''	idx := 0
	if ag.over(out, depth) {
		idx = ag.cheapestConcat(cs) // steer: pick the cheapest-to-finish branch
	} else if len(cs) > 1 {''','''	idx := 0
	if ag.over(out, depth) && len(cs) > 2 {
		idx = ag.cheapestConcat(cs) // steer: pick the cheapest-to-finish branch
	} else if len(cs) > 1 {'''))
b("h-ast-depth-group","C28",(A,'''		r := GetRule(e.Name, ag.g.Rulemap)
		ag.genAlt(src, out, r.Alternation, depth+1)''','''		r := GetRule(e.Name, ag.g.Rulemap)
		next := depth + 1
		if len(r.Alternation.Concatenations) == 1 {
			next = depth // no choice, no depth
		}
		ag.genAlt(src, out, r.Alternation, next)'''))
b("h-nearmiss-tape","C15",(F,'''	tape := make([]byte, 64)
	r.Read(tape)
	return g.NearMiss(tape)''','''	tape := make([]byte, 64)
	r.Read(tape)
	production, label, ok = g.NearMiss(tape)
	if !ok {
		production, label, ok = g.GenerateRand(r), "random", true
	}
	return production, label, ok'''))
b("h-span-trim","C33",(G,'''	return &Rule{Name: e.span(nameNode), Alternation: alt}, definedAs, nil''','''	return &Rule{Name: strings.TrimRight(e.span(nameNode), "-"), Alternation: alt}, definedAs, nil'''))
b("h-getnodep-share","C30",(S,'''	if L.dot == 1 && !betaEmpty {
		return z // single symbol consumed, more to come: pass straight up
	}''','''	if L.dot == 1 && (!betaEmpty || w == nil && z.kind == gSymbol && !p.sg.nts[L.nt].isRule) {
		return z // single symbol consumed: pass straight up
	}'''))

G = '''func mk(t *testing.T, src string, opts ...goabnf.ABNFOption) *goabnf.Grammar {
	t.Helper()
	g, err := goabnf.ParseABNF([]byte(strings.ReplaceAll(src, "\\n", "\\r\\n")), opts...)
	if err != nil {
		t.Fatal(err)
	}
	return g
}

'''
BUGS = [
dict(id="C04-clone-budget", property="C04", helpers=G, needs="a 1*m repetition (min below 2) with a node budget smaller than the clones", breaks="the optional tail of a bounded repetition is cloned without being charged to the WithMaxNodes budget",
 edits=[("transition_graph.go", "				if err := m.reserveClones(rep.Max-rep.Min, elemi); err != nil {\n					return nil, nil, err\n				}\n				tgs, chi, _ := chainTransitionGraph(elemi, elemo, rep.Max-rep.Min)", "				tgs, chi, _ := chainTransitionGraph(elemi, elemo, remaining)")],
 demo='''g := mk(t, "a = 1*50\\"x\\"\\n")
	var e *goabnf.ErrMaxNodesExceeded
	if _, err := g.TransitionGraph("a", goabnf.WithMaxNodes(10)); !errors.As(err, &e) {
		t.Fatalf("budget ignored: %v", err)
	}'''),
dict(id="C06-bsr-series-ceiling", property="C06", helpers=G, needs="an unvalidated grammar with a series value above U+10FFFF, and an input holding U+FFFD, in the BSR engine only", breaks="a value no character can have matches the replacement character",
 edits=[("bsr.go", "				if !utf8.ValidRune(ru) {\n					return -1\n				}\n", "")],
 demo='''g := mk(t, "a = %x110000\\n", goabnf.WithValidation(false))
	f, err := goabnf.ParseBSR([]byte("\\uFFFD"), g, "a")
	if err != nil || f.Valid() {
		t.Fatal("matched", err)
	}'''),
dict(id="C08-gss-count", property="C08", helpers=G, needs="a bounded repetition whose element can be split differently so that two counts meet at one position", breaks="stack nodes that differ only in the repetition count are merged in the BSR engine",
 edits=[("bsr.go", "	k := gssKey{ret, pos, rc}\n", "	k := gssKey{ret: ret, pos: pos}\n	if !p.sg.nts[ret.nt].isRep || ret.dot < 2 {\n		k.rc = rc\n	}\n")],
 demo='''g := mk(t, "a = 2*3(\\"x\\" / \\"xx\\")\\n")
	for n := 0; n < 9; n++ {
		in := []byte(strings.Repeat("x", n))
		f, err := goabnf.ParseBSR(in, g, "a")
		if err != nil {
			t.Fatal(err)
		}
		want, _ := g.IsValid("a", in)
		if f.Valid() != want {
			t.Fatalf("%d: %v want %v", n, f.Valid(), want)
		}
	}'''),
dict(id="C09-popped-replay", property="C09", helpers=G, needs="a caller that registers after its callee already returned with an empty result", breaks="results found before the caller registered are not all delivered to it",
 edits=[("sppf.go", "		for z := range p.popped[v] {\n", "		for z := range p.popped[v] {\n			if z.End == i && u.pos == i {\n				continue // empty result at our own start, already reached\n			}\n")],
 demo='''g := mk(t, "s = s b / b s / \\"x\\" / b\\nb = [\\"b\\"] [\\"c\\"]\\nr = (s / s s) b b \\"d\\" / *(b b) [s] \\"y\\"\\n")
	for _, in := range []string{"", "x", "b", "bx", "xb", "d", "bd", "xd", "y", "by", "bcxy", "cbcby", "bcbxcbd"} {
		for _, r := range []string{"s", "b", "r"} {
			f, err := goabnf.ParseForest([]byte(in), g, r)
			if err != nil {
				t.Fatal(err)
			}
			h, _ := goabnf.ParseBSR([]byte(in), g, r)
			if f.Valid() != h.Valid() || f.NumTrees().Cmp(h.NumTrees()) != 0 {
				t.Fatalf("%q %s: %v/%v %v/%v", in, r, f.Valid(), h.Valid(), f.NumTrees(), h.NumTrees())
			}
		}
	}'''),
dict(id="C10-popped-replay", property="C10", helpers=G, needs="a caller that registers after its callee already returned with an empty result", breaks="the empty result of a callee is not delivered to callers that register later",
 edits=[("bsr.go", "		for j := range p.popped[v] {\n", "		for j := range p.popped[v] {\n			if j == i {\n				continue\n			}\n")],
 demo='''g := mk(t, "s = s b / b s / \\"x\\" / b\\nb = [\\"b\\"] [\\"c\\"]\\nr = (s / s s) b b \\"d\\" / *(b b) [s] \\"y\\"\\n")
	for _, in := range []string{"", "x", "b", "bx", "xb", "d", "bd", "xd", "y", "by", "bcxy", "cbcby", "bcbxcbd"} {
		for _, r := range []string{"s", "b", "r"} {
			f, err := goabnf.ParseForest([]byte(in), g, r)
			if err != nil {
				t.Fatal(err)
			}
			h, _ := goabnf.ParseBSR([]byte(in), g, r)
			if f.Valid() != h.Valid() || f.NumTrees().Cmp(h.NumTrees()) != 0 {
				t.Fatalf("%q %s: %v/%v %v/%v", in, r, f.Valid(), h.Valid(), f.NumTrees(), h.NumTrees())
			}
		}
	}'''),
dict(id="C11-option-cycle", property="C11", helpers=G, needs="a cycle that only closes through an optional part nested in a group", breaks="dependencies inside an option below a group are forgotten, so a cyclic rule is taken for acyclic",
 edits=[("dag.go", "			case ElemGroup:\n				deps = appendDeps(deps, getDependencies(v.Alternation)...)\n", "			case ElemGroup:\n				for _, c := range v.Alternation.Concatenations {\n					for _, r := range c.Repetitions {\n						if _, skip := r.Element.(ElemOption); skip {\n							continue\n						}\n						sub := Alternation{Concatenations: []Concatenation{{Repetitions: []Repetition{r}}}}\n						deps = appendDeps(deps, getDependencies(sub)...)\n					}\n				}\n")],
 demo='''g := mk(t, "a = \\"x\\" 1*2(\\"y\\" [a])\\n")
	if g.IsDAG() {
		t.Fatal("cycle missed")
	}
	if c, _ := g.RuleContainsCycle("a"); !c {
		t.Fatal("cycle missed")
	}'''),
dict(id="C13-leftrec-case", property="C13", helpers=G, needs="a left-recursive rule referenced in another letter case than its definition", breaks="the left-recursion table is consulted with the spelling of the reference",
 edits=[("recognize.go", "r.leftRec[strings.ToLower(rn.Name)]; isLR", "r.leftRec[rn.Name]; isLR")],
 demo='''g := mk(t, "a = A \\"x\\" / \\"y\\"\\n")
	if ok, err := g.IsValid("a", []byte("yxx")); err != nil || !ok {
		t.Fatal(ok, err)
	}
	if ok, err := g.IsValid("A", []byte("yxx")); err != nil || !ok {
		t.Fatal(ok, err)
	}'''),
dict(id="C16-hex-ceiling", property="C16", helpers=G, needs="a six-digit hexadecimal value starting with 11", breaks="validation accepts code points 110000 to 11FFFF",
 edits=[("utils.go", "(str[0] == '1' && (str[1] > '0'))", "(str[0] == '1' && str[1] > '1')")],
 demo='''for _, v := range []string{"%x110000", "%x11FFFF", "%x00110000"} {
		if _, err := goabnf.ParseABNF([]byte("a = " + v + "\\r\\n")); err == nil {
			t.Fatal("accepted", v)
		}
	}'''),
dict(id="C21-stale-expected", property="C21", helpers=G, needs="the same terminal failing at two positions, the further one last", breaks="a terminal already expected at an earlier position is not listed at the furthest one",
 edits=[("sppf.go", "		p.expected = p.expected[:0]\n		p.expectedSeen = nil\n", "		p.expected = p.expected[:0]\n")],
 demo='''g := mk(t, "a = \\"q\\" / \\"b\\" \\"q\\"\\n")
	f, err := goabnf.ParseForest([]byte("bz"), g, "a")
	if err != nil {
		t.Fatal(err)
	}
	g2 := mk(t, "a = \\"b\\" \\"q\\" / \\"q\\"\\n")
	f2, err := goabnf.ParseForest([]byte("bz"), g2, "a")
	if err != nil {
		t.Fatal(err)
	}
	if len(f.ParseError().Expected) != 1 || len(f2.ParseError().Expected) != 1 {
		t.Fatal(f.ParseError(), f2.ParseError())
	}'''),
dict(id="C23-empty-literal", property="C23", helpers=G, needs="left recursion hidden behind an empty quoted string", breaks="an empty literal is not considered nullable",
 edits=[("leftrec.go", "	case ElemCharVal:\n		return len(v.Values) == 0\n", "")],
 demo='''g := mk(t, "a = b a \\"x\\" / \\"y\\"\\nb = \\"\\"\\n")
	if ok, err := g.IsValid("a", []byte("yxx")); err != nil || !ok {
		t.Fatal(ok, err)
	}'''),
dict(id="C25-class-adjacent", property="C25", helpers=G, needs="three alternatives whose ranges overlap so that a later one ends earlier", breaks="merging a contained range shrinks the class",
 edits=[("regex.go", "			if r.hi > last.hi {\n				last.hi = r.hi\n			}\n", "			last.hi = r.hi\n")],
 demo='''g := mk(t, "a = %x61-7A / %x63-65\\n")
	re, err := g.Regex("a")
	if err != nil {
		t.Fatal(err)
	}
	if !regexp.MustCompile("^(?:" + re + ")$").MatchString("z") {
		t.Fatal(re)
	}'''),
dict(id="C26-shared-chain", property="C26", helpers=G, needs="a bounded repetition followed by something else, used twice", breaks="the first copy of a chained element shares its nodes with the original",
 edits=[("transition_graph.go", "			if rep.Min > 1 {\n				if err := m.reserveClones(rep.Min, elemi)", "			if rep.Min > 2 {\n				if err := m.reserveClones(rep.Min, elemi)")],
 demo='''g := mk(t, "a = 2\\"x\\" \\"y\\"\\n")
	tg, err := g.TransitionGraph("a")
	if err != nil {
		t.Fatal(err)
	}
	r := tg.Reader()
	for r.Next() {
		s := r.Scan()
		if ok, _ := g.IsValid("a", s); !ok {
			t.Fatalf("%q", s)
		}
	}'''),
dict(id="C27-odometer", property="C27", helpers=G, needs="a trail with two nodes having several variations", breaks="the variation odometer skips the carry, so some combinations are never produced",
 edits=[("transition_graph.go", "		tgr.varIdx[i] = 0\n		i--\n", "		tgr.varIdx[i] = 0\n		i--\n		if i == 0 && tgr.varTot[0] > 2 {\n			i--\n		}\n")],
 demo='''g := mk(t, "a = %x61-63 %x61-62\\n")
	tg, err := g.TransitionGraph("a")
	if err != nil {
		t.Fatal(err)
	}
	seen := map[string]bool{}
	for r := tg.Reader(); r.Next(); {
		seen[string(r.Scan())] = true
	}
	if len(seen) != 6 {
		t.Fatal(seen)
	}'''),
dict(id="C30-bsr-ambiguous", property="C30", helpers=G, needs="an ambiguity between two alternatives (not two pivots) below the root", breaks="ambiguity between alternatives of a nested rule is not reported",
 edits=[("bsr.go", "			packs += len(ks)\n", "			packs = max(packs, len(ks))\n")],
 demo='''g := mk(t, "a = \\"x\\" b\\nb = c / d\\nc = \\"y\\"\\nd = \\"y\\"\\n")
	f, err := goabnf.ParseBSR([]byte("xy"), g, "a")
	if err != nil {
		t.Fatal(err)
	}
	if !f.Ambiguous() {
		t.Fatal(f.NumTrees())
	}'''),
dict(id="C05-option-bounds", property="C05", helpers=G, needs="an invalid repetition nested in an option", breaks="semantic validation does not look inside options",
 edits=[("grammar.go", "			case ElemOption:\n				if err := semvalAlternation(elem.Alternation); err != nil {\n					return err\n				}\n", "			case ElemOption:\n				if rep.Min == 0 && rep.Max == 0 {\n					continue\n				}\n				if err := semvalAlternation(Alternation{Concatenations: elem.Alternation.Concatenations[:1]}); err != nil {\n					return err\n				}\n")],
 demo='''if _, err := goabnf.ParseABNF([]byte("a = [\\"y\\" / 3*2\\"x\\"]\\r\\n")); err == nil {
		t.Fatal("accepted")
	}'''),
dict(id="C12-regex-prose", property="C12", helpers=G, needs="a prose value inside a rule referenced twice", breaks="the error of a prose value is lost when its rule is met again",
 edits=[("regex.go", "	n := b.alt(r.Alternation)\n	b.memo[key] = n\n	return n\n", "	saved := b.err\n	n := b.alt(r.Alternation)\n	if _, again := b.memo[key]; !again && len(r.Alternation.Concatenations) > 1 {\n		b.err = saved\n	}\n	b.memo[key] = n\n	return n\n")],
 demo='''g := mk(t, "a = b \\"x\\"\\nb = <anything> / \\"y\\"\\n")
	if re, err := g.Regex("a"); err == nil {
		t.Fatal(re)
	}'''),
]

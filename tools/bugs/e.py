B=[]
def b(id, prop, *edits): B.append((id, prop, list(edits)))
C="codegen.go"; D="dag.go"; L="leftrec.go"; G="grammar.go"; U="utils.go"; R="rules.go"
AG="cmd/abnf-gen/main.go"; P="cmd/pap/main.go"; PG="cmd/pap/commands/generate.go"; PR="cmd/pap/commands/regex.go"; PT="cmd/pap/commands/transition_graph.go"; PU="cmd/pap/commands/utils.go"; PV="cmd/pap/commands/validate.go"
# codegen emitters
b("c-call-cap","C31",(C,"if crc > %d {\\n\\t\\t\\t\\tcrc = %d\\n\\t\\t\\t}\\n\", ci.repMin, ci.repMin)","if crc > %d {\\n\\t\\t\\t\\tcrc = %d\\n\\t\\t\\t}\\n\", ci.repMin, max(ci.repMin-1, 0))"))
b("c-call-min","C31",(C,"fmt.Fprintf(b, \"\\t\\t\\tif crc >= %d {\\n\\t\\t\\t\\tp.add(%d, v, i, crc)\\n\\t\\t\\t}\\n\", ci.repMin,","fmt.Fprintf(b, \"\\t\\t\\tif crc > %d {\\n\\t\\t\\t\\tp.add(%d, v, i, crc)\\n\\t\\t\\t}\\n\", ci.repMin,"))
b("c-call-max","C31",(C,"if crc < %d {\\n\\t\\t\\t\\tp.add(%d, v, i, crc)","if crc <= %d {\\n\\t\\t\\t\\tp.add(%d, v, i, crc)"))
b("c-call-ext-zero","C31",(C,"			if ci.repMin == 0 {\n","			if ci.repMin == 0 && ci.repMax != 0 {\n"))
b("c-call-ext-max","C31",(C,"			if ci.repMax == inf || 0 < ci.repMax {\n","			if ci.repMax == inf || ci.repMin < ci.repMax {\n"))
b("c-call-rc","C31",(C,"v := p.create(%d, u, i, rc)\\n\", retID)","v := p.create(%d, u, i, 0)\\n\", retID)"))
b("c-call-alts","C31",(C,"		for alt := range ci.alts {\n			fmt.Fprintf(b, \"\\t\\t\\tp.add(%d, v, i, 0)","		for alt := range ci.alts[:min(len(ci.alts), 64)] {\n			fmt.Fprintf(b, \"\\t\\t\\tp.add(%d, v, i, 0)"))
b("c-call-self-rc","C31",(C,"			fmt.Fprintf(b, \"\\t\\t\\tp.add(%d, v, i, 0)\\n\", c.startID(callee, alt))","			fmt.Fprintf(b, \"\\t\\t\\tp.add(%d, v, i, rc)\\n\", c.startID(callee, alt))"))
b("c-eps-pos","C31",(C,"p.record(%d, u.pos, i, i)","p.record(%d, u.pos, u.pos, i)"))
b("c-range-hi","C06",(C,"if rv < %d || rv > %d {\\n\\t\\t\\t\\treturn\\n\\t\\t\\t}\\n\", lo, hi)","if rv < %d || rv > %d {\\n\\t\\t\\t\\treturn\\n\\t\\t\\t}\\n\", lo, min(hi, 0xffff))"))
b("c-range-err","C06",(C,"			b.WriteString(\"\\t\\t\\tif rv == utf8.RuneError && rs == 1 {\\n\\t\\t\\t\\treturn\\n\\t\\t\\t}\\n\")\n			fmt","			b.WriteString(\"\\t\\t\\tif rv == utf8.RuneError {\\n\\t\\t\\t\\treturn\\n\\t\\t\\t}\\n\")\n			fmt"))
b("c-range-step","C31",(C,"			b.WriteString(\"\\t\\t\\tj := i + rs\\n\")","			b.WriteString(\"\\t\\t\\tj := i + 1\\n\\t\\t\\tif rv > 0x7f {\\n\\t\\t\\t\\tj = i + utf8.RuneLen(rv)\\n\\t\\t\\t}\\n\\t\\t\\t_ = rs\\n\\t\\t\\tif j > len(p.input) {\\n\\t\\t\\t\\treturn\\n\\t\\t\\t}\\n\")"))
b("c-ascii-bound","C06",(C,"	for _, r := range v.Values {\n		if r > 0x7f {\n			allASCII = false","	for _, r := range v.Values {\n		if r > 0xff {\n			allASCII = false"))
b("c-fold-off","C06",(C,"off, foldByte(bb))","off, bb)"))
b("c-fold-rune","C06",(C,"\", foldRune(r))","\", r)"))
b("c-nonascii-sens","C06",(C,"		if v.Sensitive {\n			fmt.Fprintf(b, \"\\t\\t\\t\\tif rv","		if v.Sensitive || r > 0x7f {\n			fmt.Fprintf(b, \"\\t\\t\\t\\tif rv"))
b("c-series-invalid","C31",(C,"		if !utf8.ValidRune(r) {\n			b.WriteString(\"\\t\\t\\treturn // series","		if r > utf8.MaxRune {\n			b.WriteString(\"\\t\\t\\treturn // series"))
b("c-series-key","C08",(C,"	key := string(bs)\n","	key := strings.ToLower(string(bs))\n"))
b("c-series-idx","C08",(C,"	if i, ok := c.seriesIdx[key]; ok {\n		return i","	if i := c.seriesIdx[key]; i > 0 {\n		return i"))
b("c-utf8-nested","C14",(C,"						if r > 0x7f {\n							c.usesUTF8 = true","						if r > 0x7f && !v.Sensitive {\n							c.usesUTF8 = true"))
b("c-utf8-first","C14",(C,"			for _, s := range prod {\n				if s.kind != symTerm {\n					continue\n				}","			for i, s := range prod {\n				if s.kind != symTerm || i > 8 {\n					continue\n				}"))
b("c-import-always","C14",(C,"	if c.usesUTF8 {\n		b.WriteString(\"\\t\\\"unicode/utf8\\\"\\n\")","	if c.usesUTF8 || len(c.series) > 0 {\n		b.WriteString(\"\\t\\\"unicode/utf8\\\"\\n\")"))
b("c-seed-one","C31",(C,"	for alt := range c.sg.nts[c.sg.start].alts {\n","	for alt := range c.sg.nts[c.sg.start].alts {\n		if alt > 0 && c.sg.nts[c.sg.start].isRep {\n			break\n		}\n"))
b("c-meta-label","C30",(C,"nt.isRule, nt.ruleName)","nt.isRule, strings.ToLower(nt.ruleName))"))
b("c-meta-isrule","C31",(C,"nt.isRule, nt.ruleName)","nt.isRule || nt.ruleName != \"\", nt.ruleName)"))
b("c-meta-eps","C31",(C,"				case symEps:\n					b.WriteString(\"{kind: kEps}\")\n",""))
b("c-root-q","C14",(C,"\"// Code generated by go-abnf for root %q. DO NOT EDIT.\\n\\n\"","\"// Code generated by go-abnf for root %s. DO NOT EDIT.\\n\\n\""))
b("c-sanitize","C14",(C,"if r < 0x20 || r == 0x7f || r == utf8.RuneError || r == 0xfeff {","if r == '\\n' || r == '\\r' || r == 0 || r == 0x7f || r == utf8.RuneError {"))
b("c-comp-last","C31",(C,"			fmt.Fprintf(b, \"%d\", c.compID(nt, alt))","			fmt.Fprintf(b, \"%d\", c.startID(nt, alt)+max(1, len(c.sg.nts[nt].alts[alt])))"))
b("c-dead","C31",(C,"	if len(ci.alts) == 0 {\n		// derives","	if len(ci.alts) == 0 || ci.isRep && ci.repMax == 0 {\n		// derives"))
b("c-slots-dot","C31",(C,"				c.slots = append(c.slots, sInfo{nt, alt, dot, len(prod)})","				c.slots = append(c.slots, sInfo{nt, alt, min(dot, 255), len(prod)})"))
b("c-gen-slots","C04",(C,"compileSlots(g, root, defaultMaxSlots)","compileSlots(g, root, 0)"))
b("c-gen-pkg","C12",(C,"	if ferr != nil {\n		return []byte(src), fmt","	if ferr != nil && pkg == \"\" {\n		return []byte(src), fmt"))
b("c-from-err","C12",(C,"		return nil, fmt.Errorf(\"parse ABNF source: %w\", err)","		return nil, fmt.Errorf(\"parse ABNF source: %v\", err)"))
# rt
b("r-record-dot","C31",(C,"	if si.dot >= 2 || si.dot == si.plen {\n		e := bsrElem","	if si.dot > 2 || si.dot == si.plen {\n		e := bsrElem"))
b("r-record-bound","C04",(C,"if MaxElements > 0 && len(p.set) >= MaxElements {\n			p.aborted","if MaxElements > 0 && len(p.set) > MaxElements {\n			p.aborted"))
b("r-record-quiet","C04",(C,"			p.aborted = true\n			return\n		}\n		p.set[e] = true","			p.aborted = si.dot == si.plen\n			return\n		}\n		p.set[e] = true"))
b("r-create-popped","C31",(C,"		for j := range p.popped[v] {\n			p.record(ret, u.pos, i, j)\n			p.add(ret, u, j, rc)","		for j := range p.popped[v] {\n			p.record(ret, u.pos, i, j)\n			p.add(ret, u, j, u.rc)"))
b("r-pop-rc","C31",(C,"		p.add(u.ret, v, j, u.rc)\n	}\n}\n`","		p.add(u.ret, v, j, v.rc)\n	}\n}\n`"))
b("r-pop-dup","C31",(C,"	p.popped[u][j] = true\n	for _, v := range u.edges {","	if len(u.edges) > 1 && p.popped[u][j] {\n		return\n	}\n	p.popped[u][j] = true\n	for _, v := range u.edges[:1] {"))
b("r-gss-rc","C31",(C,"	k := gssKey{ret, pos, rc}\n","	k := gssKey{ret: ret, pos: pos}\n"))
b("r-valid-first","C31",(C,"		if len(r.index[bsrKey{sl, 0, r.n}]) > 0 {\n			return true\n		}\n	}\n	return false","		return len(r.index[bsrKey{sl, 0, r.n}]) > 0\n	}\n	return false"))
b("r-count-two","C30",(C,"			pre = symWays(prod[0], l, k)\n		default","			pre = symWays(prod[0], l, rr)\n		default"))
b("r-amb-sum","C30",(C,"			packs += len(r.index[bsrKey{sl, l, rr}])\n","			packs = max(packs, len(r.index[bsrKey{sl, l, rr}]))\n"))
b("r-amb-inter","C30",(C,"		if len(ks) > 1 {\n			return true\n		}\n		for _, k := range ks {\n			if elemAmb(sl, l, k, rr) {","		for _, k := range ks {\n			if elemAmb(sl, l, k, rr) {"))
b("r-tree-visited","C31",(C,"			visited[id] = false\n			return\n		}\n	}\n	visited[id] = false\n}","			return\n		}\n	}\n	visited[id] = false\n}"))
b("r-tree-eps","C31",(C,"		if s.kind == kEps {\n			return\n		}","		if s.kind == kEps || a == b {\n			return\n		}"))
b("r-parse-final","C04",(C,"	if p.aborted { // the last descriptor may be the one that hit the bound\n		return nil, ErrTooLarge\n	}\n	return &Result","	return &Result"))
b("r-max","C04",(C,"var MaxElements = 1 << 22","var MaxElements = 1 << 20"))
b("r-fold","C06",(C,"func foldR(r rune) rune {\n	if r >= 'A' && r <= 'Z' {","func foldR(r rune) rune {\n	if r >= 'A' && r < 'Z' {"))
# rules.go tables
b("t-alpha","C01",(R,"\"5A\"","\"5B\""))
b("t-vchar","C01",(R,"\"7E\"","\"7F\""))
# cmds
b("m-noval","C29",(AG,"	if *noValidate {\n		opts = append(opts, goabnf.WithValidation(false))","	if *noValidate {\n		opts = append(opts, goabnf.WithValidation(false), goabnf.WithRedefineCoreRules(true))"))
b("m-write-first","C12",(AG,"	code, err := goabnf.GenerateGoParserFromABNF(src, *root, *pkg, opts...)\n	if err != nil {\n		return err\n	}\n","	code, err := goabnf.GenerateGoParserFromABNF(src, *root, *pkg, opts...)\n	if err != nil && len(code) == 0 {\n		return err\n	}\n"))
b("m-stdout-err","C12",(AG,"		_, err = os.Stdout.Write(code)\n		return err\n","		os.Stdout.Write(code)\n		return nil\n"))
b("m-write-err","C12",(AG,"		return fmt.Errorf(\"write %s: %w\", *out, err)","		fmt.Fprintf(os.Stderr, \"write %s: %v\\n\", *out, err)"))
b("m-exit","C12",(AG,"		os.Exit(1)\n",""))
b("m-missing-pkg","C12",(AG,", missing(\"pkg\", *pkg)}","}"))
b("m-usage-nil","C12",(AG,"			flag.Usage()\n			return e\n","			flag.Usage()\n			return nil\n"))
b("p-fatal","C12",(P,"		log.Fatal(err)","		log.Println(err)"))
b("p-gen-seed","C29",(PU,"	if ctx.IsSet(\"seed\") {","	if ctx.Int64(\"seed\") != 0 {"))
b("p-gen-thr","C29",(PG,"goabnf.WithThreshold(ctx.Int(\"threshold\"))","goabnf.WithThreshold(ctx.Int(\"rep-max\"))"))
b("p-gen-thr2","C29",(PG,"	if ctx.IsSet(\"threshold\") {\n","	if ctx.IsSet(\"threshold\") && !ctx.IsSet(\"rep-max\") {\n"))
b("p-gen-flag","C29",(PG,"			Name:  \"threshold\",","			Name:  \"treshold\","))
b("p-gen-required","C29",(PG,"			Required: true,\n",""))
b("p-gen-default-in","C29",(PG,"			Value: \"-\",","			Value: \"\","))
b("p-tg-deflate","C29",(PT,"	if ctx.IsSet(\"deflate-numvals\") {\n		opts = append(opts, goabnf.WithDeflateNumVals(true))","	if ctx.IsSet(\"deflate-numvals\") {\n		opts = append(opts, goabnf.WithDeflateCharVals(true))"))
b("p-tg-flag","C29",(PT,"		&cli.BoolFlag{\n			Name: \"deflate-numvals\",\n		},\n","		&cli.BoolFlag{\n			Name:  \"deflate-numvals\",\n			Value: true,\n		},\n"))
b("p-val-swallow","C12",(PV,"	if err != nil {\n		return err\n	}\n	fmt.Println(g","	if err != nil && g == nil {\n		fmt.Println(err)\n		return nil\n	}\n	fmt.Println(g"))
b("p-val-semval","C29",(PV,"goabnf.WithValidation(ctx.Bool(\"sem-val\"))","goabnf.WithValidation(true)"))
b("p-val-act","C29",(PV,"	Action: validate,","	Action: regex,"))
b("p-re-input","C12",(PR,"	if err != nil {\n		return err\n	}\n\n	// Build grammar","	if err != nil && len(b) == 0 {\n		return err\n	}\n\n	// Build grammar"))
b("p-readinput","C12",(PU,"		return io.ReadAll(os.Stdin)","		b, _ := io.ReadAll(os.Stdin)\n		return b, nil"))
b("p-cmds","C29",(P,"			commands.Regex,\n",""))
# utils
b("u-numval-wrap","C16",(U,"	if !ok || v > math.MaxInt32 {","	if !ok || v > math.MaxUint32 {"))
b("u-trim","C16",(U,"	str = strings.TrimLeft(str, \"0\")\n","	str = strings.TrimPrefix(str, \"0\")\n"))
b("u-bits","C16",(U,"baseRadix(base), 64)","baseRadix(base), 32)"))
# dag / leftrec
b("d-core-first","C13",(D,"	for _, rule := range g.Rulemap {\n		graph[strings.ToLower(rule.Name)] =","	for _, rule := range g.Rulemap {\n		if graph[strings.ToLower(rule.Name)] != nil {\n			continue\n		}\n		graph[strings.ToLower(rule.Name)] ="))
b("d-onstack","C11",(D,"			w.onStack = false\n			scc","			w.onStack = w == v\n			scc"))
b("d-low","C23",(D,"			if w.onStack {\n","			if w.onStack && w.index < v.index {\n"))
b("d-self","C11",(D,"			if slices.Contains(nd.Dependencies, strings.ToLower(nd.Rulename)) {","			if slices.Contains(nd.Dependencies, nd.Rulename) {"))
b("d-visit-dep","C11",(D,"		if ruleCycleVisit(dk, nodeOf, inCycle, visited) {\n			return true\n		}","		return ruleCycleVisit(dk, nodeOf, inCycle, visited)"))
b("d-opt-deps","C11",(D,"			case ElemOption:\n				deps = appendDeps(deps, getDependencies(v.Alternation)...)\n","			case ElemOption:\n				if rep.Min > 0 {\n					deps = appendDeps(deps, getDependencies(v.Alternation)...)\n				}\n"))
b("l-null-core","C23",(L,"	for n := range coreRules {\n		if r := GetRule(n, g.Rulemap); r != nil {\n			rules","	for n := range coreRules {\n		if r := getRuleIn(n, coreRules); r != nil {\n			rules"))
b("l-null-once","C23",(L,"				null[name] = true\n				changed = true","				null[name] = true\n				changed = len(null) < len(g.Rulemap)"))
b("l-opt-null","C23",(L,"	case ElemOption:\n		return true\n	case ElemGroup","	case ElemOption:\n		return len(v.Alternation.Concatenations) > 0\n	case ElemGroup"))
b("l-lc-opt","C23",(L,"				if rep.Min == 0 || elemNullable(g, null, rep.Element) {","				if rep.Min == 0 && rep.Max != 1 || elemNullable(g, null, rep.Element) {"))
b("l-scc-self","C23",(L,"			leftRecursive = slices.Contains(scc[0].Dependencies, members[0])","			leftRecursive = slices.Contains(scc[0].Dependencies, scc[0].Rulename)"))
b("l-scc-shared","C23",(L,"				out[m] = members","				out[m] = members[:1]"))
b("l-add-user","C13",(L,"		if _, ok := lc[name]; ok {\n			return\n		}\n",""))
# grammar
b("g2-ambig","C05",(G,"	if f.Ambiguous() {","	if f.NumTrees().Int64() > 1 {"))
b("g2-core-ext","C17",(G,"			if !e.o.redefineCore && isCoreRule {","			if !e.o.redefineCore && isCoreRule && getRuleIn(rl.Name, mp) == nil {"))
b("g2-ext-name","C17",(G,"			mp[rule.Name] = &Rule{\n				Name: rule.Name,","			mp[rl.Name] = &Rule{\n				Name: rl.Name,"))
b("g2-dup-case","C17",(G,"			if getRuleIn(rl.Name, mp) != nil {","			if mp[rl.Name] != nil {"))
b("g2-ext-order","C17",(G,"slices.Concat(rule.Alternation.Concatenations, rl.Alternation.Concatenations)","slices.Concat(rl.Alternation.Concatenations, rule.Alternation.Concatenations)"))
b("g2-defas","C17",(G,"	if strings.Contains(e.span(defNode), \"=/\") {","	if strings.Contains(e.span(defNode), \"/\") {"))
b("g2-defas2","C17",(G,"	if strings.Contains(e.span(defNode), \"=/\") {","	if strings.HasSuffix(e.span(defNode), \"=/\") {"))
b("g2-repeat-err","C33",(G,"		d, _ := strconv.Atoi(s)\n","		d, _ := strconv.Atoi(strings.TrimLeft(s, \"0\"))\n"))
b("g2-repeat-max0","C33",(G,"		max, _ = strconv.Atoi(post)\n","		if max, _ = strconv.Atoi(post); max == 0 {\n			max = inf\n		}\n"))
b("g2-char-quote","C33",(G,"	last := strings.LastIndexByte(s, '\"')","	last := strings.LastIndexByte(strings.TrimRight(s, \"\\\"\")+\"\\\"\", '\"')"))
b("g2-char-i","C33",(G,"		if s[1] == 's' || s[1] == 'S' {","		if s[1] != 'i' {"))
b("g2-num-upper","C33",(G,"		case 'x', 'X':\n			base = \"x\"","		case 'x':\n			base = \"x\""))
b("g2-prose-end","C33",(G,"	for i := t.Start + 1; i < t.End-1; i++ {","	for i := t.Start + 1; i < t.End && e.input[i] != '>'; i++ {"))
b("g2-pretty-order","C19",(G,"		for i := 0; i < rulenameLength-len(rulename); i++ {","		for i := 1; i < rulenameLength-len(rulename); i++ {"))
b("g2-pretty-crlf","C19",(G,"fmt.Sprintf(\"%s%s = %s\\r\\n\", rulename, spaces, rl.Alternation)","fmt.Sprintf(\"%s%s = %s\\n\", rulename, spaces, rl.Alternation)"))
b("g2-semval-user","C05",(G,"			r := GetRule(dep, g.Rulemap)\n			if r == nil {","			r := GetRule(dep, g.Rulemap)\n			if r == nil && len(deps) < 64 {"))
b("g2-semval-grp","C16",(G,"			case ElemGroup:\n				if err := semvalAlternation(elem.Alternation); err != nil {\n					return err\n				}\n","			case ElemGroup:\n				if rep.Min == 0 {\n					continue\n				}\n				if err := semvalAlternation(elem.Alternation); err != nil {\n					return err\n				}\n"))
b("g2-evalforest","C05",(G,"	if tree == nil {\n		return nil, ErrNoSolutionFound\n	}\n	ev","	if tree == nil {\n		return &Grammar{Rulemap: map[string]*Rule{}}, nil\n	}\n	ev"))

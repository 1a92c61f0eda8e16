B=[]
def b(id, prop, *edits): B.append((id, prop, list(edits)))
# --- bsr.go
b("b-gss-norc","C08",("bsr.go","	k := gssKey{ret, pos, rc}\n	if v, ok := p.gss[k]; ok {\n		return v\n	}\n	v := &bsrGNode{","	k := gssKey{ret, pos, min(rc, 64)}\n	if v, ok := p.gss[k]; ok {\n		return v\n	}\n	v := &bsrGNode{"))
b("b-record-dot","C10",("bsr.go","	if L.dot >= 2 || L.dot == len(prod) {\n","	if L.dot >= 2 || L.dot == len(prod) && l < r {\n"))
b("b-create-nopop","C10",("bsr.go","			p.record(ret, u.pos, i, j)\n			p.add(ret, u, j, rc)\n","			p.record(ret, u.pos, i, j)\n			if j > i {\n				p.add(ret, u, j, rc)\n			}\n"))
b("b-pop-order","C10",("bsr.go","	if p.popped[u] == nil {\n		p.popped[u] = map[int]bool{}\n	}\n	p.popped[u][j] = true\n","	if p.popped[u] == nil {\n		p.popped[u] = map[int]bool{}\n	}\n	if p.popped[u][j] {\n		return\n	}\n	if len(u.edges) > 1 {\n		p.popped[u][j] = true\n	}\n"))
b("b-repalts-max","C07",("bsr.go","	if nt.repMax == inf || rc < nt.repMax {\n		p.add(slot{ntID, 1, 0}","	if nt.repMax <= 0 || rc < nt.repMax {\n		p.add(slot{ntID, 1, 0}"))
b("b-match-rune","C06",("bsr.go","			if r == utf8.RuneError && size == 1 {\n				return -1\n			}\n			if !sensequal","			if r == utf8.RuneError {\n				return -1\n			}\n			if !sensequal"))
b("b-match-range-empty","C06",("bsr.go","			if min <= r && r <= max {\n				return i + size","			if min <= r && r <= max {\n				return i + utf8.RuneLen(r)"))
b("b-match-series-short","C06",("bsr.go","				if idx+sz > len(p.input) || str != string(p.input[idx:idx+sz]) {\n					return -1\n				}\n				idx += sz\n","				if idx+sz > len(p.input) {\n					return -1\n				}\n				if c, n := utf8.DecodeRune(p.input[idx:]); c != ru {\n					return -1\n				} else {\n					sz = n\n				}\n				idx += sz\n"))
b("b-parse-abort","C04",("bsr.go","	if p.aborted {\n		return nil, &ErrForestTooLarge{Max: cfg.maxNodes}\n	}\n	f := &BSRForest{","	if p.aborted && len(p.work) > 0 {\n		return nil, &ErrForestTooLarge{Max: cfg.maxNodes}\n	}\n	f := &BSRForest{"))
b("b-process-rc","C10",("bsr.go","				if s.nt == L.nt {\n					childRC = capRC(rc, p.sg.nts[s.nt])","				if s.nt == L.nt && rc < 1<<16 {\n					childRC = capRC(rc, p.sg.nts[s.nt])"))
b("b-process-last","C10",("bsr.go","				for ai := range p.sg.nts[s.nt].alts {\n					p.add(slot{s.nt, ai, 0}, v, i, 0)","				for ai := range p.sg.nts[s.nt].alts {\n					if len(v.edges) > 1 && ai > 0 {\n						break\n					}\n					p.add(slot{s.nt, ai, 0}, v, i, 0)"))
b("b-valid-first","C30",("bsr.go","		if len(f.index[bsrKey{s, 0, f.n}]) > 0 {\n			return true\n		}\n	}\n	return false","		if len(f.index[bsrKey{s, 0, f.n}]) > 0 {\n			return true\n		}\n		if ai > 31 {\n			break\n		}\n	}\n	return false"))
b("b-count-memo","C30",("bsr.go","		total := big.NewInt(0)\n		for ai, prod := range f.sg.nts[nt].alts {\n			sl := slot{nt, ai, len(prod)}\n			for _, k := range f.index[bsrKey{sl, l, r}] {\n				total.Add(total, countElem(sl, l, k, r))\n			}\n		}\n		onStack[id] = false\n","		total := big.NewInt(0)\n		for ai, prod := range f.sg.nts[nt].alts {\n			sl := slot{nt, ai, len(prod)}\n			for _, k := range f.index[bsrKey{sl, l, r}] {\n				total.Add(total, countElem(sl, l, k, r))\n			}\n		}\n"))
b("b-count-inter-nopre","C30",("bsr.go","		case 2: // single-symbol prefix\n			pre = symWays(prod[0], l, k)","		case 2: // single-symbol prefix\n			pre = big.NewInt(1)"))
b("b-count-add","C30",("bsr.go","		return new(big.Int).Mul(pre, last)\n","		if pre.BitLen() > 63 {\n			return pre\n		}\n		return new(big.Int).Mul(pre, last)\n"))
b("b-count-infinite","C30",("bsr.go","	if infinite {\n		return big.NewInt(-1)\n	}\n	return res","	if infinite && res.Sign() == 0 {\n		return big.NewInt(-1)\n	}\n	return res"))
b("b-amb-last","C30",("bsr.go","		case 2:\n			return symOf(prod[0], l, k)\n","		case 2:\n			return l < k && symOf(prod[0], l, k)\n"))
b("b-amb-packs","C30",("bsr.go","			packs += len(ks)\n","			packs = max(packs, len(ks))\n"))
b("b-amb-visited","C30",("bsr.go","		visited[id] = true\n		ks := f.index[bsrKey{sl, l, r}]\n","		visited[bsrNodeID{l: l, r: r}] = true\n		visited[id] = true\n		ks := f.index[bsrKey{sl, l, r}]\n"))
b("b-tree-eps","C30",("bsr.go","		if s.kind == symEps {\n			return // epsilon contributes no leaf\n		}\n","		if a == b {\n			return // epsilon contributes no leaf\n		}\n"))
b("b-tree-order","C30",("bsr.go","			f.collectElem(isl, l, ks[0], k, out, visited)\n","			defer f.collectElem(isl, l, ks[0], k, out, visited)\n"))
b("b-tree-visited","C30",("bsr.go","				f.collectElem(csl, a, ks[0], b, out, visited)\n			}\n			visited[id] = false\n			return","				f.collectElem(csl, a, ks[0], b, out, visited)\n			}\n			return"))
b("b-opt-order","C29",("bsr.go","	cfg := forestConfig{maxSlots: defaultMaxSlots}\n	for _, o := range opts {\n		o(&cfg)\n	}\n	sg, err","	cfg := forestConfig{maxSlots: defaultMaxSlots}\n	for i := len(opts) - 1; i >= 0; i-- {\n		opts[i](&cfg)\n	}\n	sg, err"))
# --- regex.go
b("b-re-memo-case","C13",("regex.go","	key := strings.ToLower(name)\n	if n, ok := b.memo[key]; ok {\n		return n\n	}\n	r := GetRule(name","	key := name\n	if n, ok := b.memo[key]; ok {\n		return n\n	}\n	r := b.g.Rulemap[name]\n	if r == nil {\n		r = coreRules[strings.ToUpper(name)]\n	}\n	if r == nil {\n		r = GetRule(name"),("regex.go","b.g.Rulemap)\n	if r == nil {\n		return reNeverV","b.g.Rulemap)\n	}\n	if r == nil {\n		return reNeverV"))
b("b-re-err-last","C12",("regex.go","	node := b.alt(rule.Alternation)\n	if b.err != nil {\n		return \"\", b.err\n	}\n	node = simplify(node, map[reNode]reNode{})\n","	node := b.alt(rule.Alternation)\n	node = simplify(node, map[reNode]reNode{})\n	if b.err != nil && isEmpty(node) {\n		return \"\", b.err\n	}\n"))
b("b-re-render-err","C04",("regex.go","	rr.n += len(s)\n	if rr.max > 0 && rr.n > rr.max {","	if rr.max > 0 && rr.n > rr.max {"),("regex.go","	sb.WriteString(s)\n}","	rr.n += len(s)\n	sb.WriteString(s)\n}"))
b("b-re-runes","C04",("regex.go","	rr.n += len(s)\n","	rr.n += utf8.RuneCountInString(s)\n"))
b("b-re-straddle","C06",("regex.go","			if lo > utf8.MaxRune || lo > hi {","			if lo >= utf8.MaxRune || lo > hi {"))
b("b-re-series-invalid","C06",("regex.go","				if !utf8.ValidRune(c) {\n					return reNeverV\n				}\n				parts","				if !utf8.ValidRune(c) {\n					continue\n				}\n				parts"))
b("b-re-fold","C25",("regex.go","		case c >= 'a' && c <= 'z':\n			up","		case c >= 'a' && c < 'z':\n			up"))
b("b-re-never-repeat","C25",("regex.go","			if v.min == 0 {\n				res = reEmptyV\n			} else {","			if v.min == 0 && v.max != inf {\n				res = reEmptyV\n			} else {"))
b("b-re-rep-collapse","C25",("regex.go","		case isEmpty(sub):\n			res = reEmptyV\n		case v.min == 1 && v.max == 1:","		case isEmpty(sub):\n			res = reEmptyV\n		case v.max == 0:\n			res = sub\n		case v.min == 1 && v.max == 1:"))
b("b-re-nested-rep","C25",("regex.go","		default:\n			res = &reRepeat{sub: sub, min: v.min, max: v.max}\n","		default:\n			if x, ok := sub.(*reRepeat); ok && x.max == inf && v.max == inf {\n				sub = x.sub\n			}\n			res = &reRepeat{sub: sub, min: v.min, max: v.max}\n"))
b("b-re-empty-alt","C25",("regex.go","			if isNever(so) { // a never-matching branch is dead; drop it","			if isNever(so) || isEmpty(so) && len(v.opts) > 2 { // a never-matching branch is dead; drop it"))
b("b-re-classes-one","C25",("regex.go","		if classes > 0 {\n","		if classes > 1 || classes == len(opts) {\n"))
b("b-re-norm-last","C25",("regex.go","			if r.hi > last.hi {\n				last.hi = r.hi\n			}\n","			last.hi = r.hi\n"))
b("b-re-norm-gap","C25",("regex.go","r.lo <= last.hi+1","r.lo <= last.hi+2"))
b("b-re-sort","C25",("regex.go","return cp[i].lo < cp[j].lo || (cp[i].lo == cp[j].lo && cp[i].hi < cp[j].hi)","return cp[i].hi < cp[j].hi"))
b("b-re-prec","C25",("regex.go","		rr.render(sb, v.sub, precAtom) // operand","		rr.render(sb, v.sub, precRepeat) // operand"))
b("b-re-concat-prec","C25",("regex.go","			rr.render(sb, p, precConcat)","			rr.render(sb, p, min(ctx, precConcat))"))
b("b-re-class-single","C25",("regex.go","			b.WriteByte('-')\n			b.WriteString(classEscape(r.hi))","			if r.hi > r.lo+1 {\n				b.WriteByte('-')\n			}\n			b.WriteString(classEscape(r.hi))"))
b("b-re-quant-zero","C25",("regex.go",'		return fmt.Sprintf("{0,%d}", max)','		return fmt.Sprintf("{,%d}", max)'))
b("b-re-quant-eq","C25",("regex.go","	case min == max:\n","	case min+1 >= max:\n"))
b("b-re-classesc","C25",("regex.go","	return fmt.Sprintf(\"\\\\x{%x}\", r)\n}\n","	if r > 0x7f {\n		return string(r)\n	}\n	return fmt.Sprintf(\"\\\\x{%x}\", r)\n}\n")) if False else None
b("b-re-memo-shared","C08",("regex.go","	memo[n] = res\n	return res\n","	memo[n] = res\n	memo[res] = n\n	return res\n"))
b("b-re-cyclic","C11",("regex.go","	if isCyclic {\n","	if isCyclic && o.maxLen == 0 {\n"))

package goabnf

import big "math/big"

func vr_BSRForest_NumTrees(f *BSRForest) *big.Int {
	if !vr_BSRForest_Valid(f) {
		return big.NewInt(0)
	}
	memo := map[bsrNodeID]*big.Int{}
	onStack := map[bsrNodeID]bool{}
	infinite := false

	var symWays func(s ssym, a, b int) *big.Int
	var countSym func(nt, l, r int) *big.Int
	var countInter func(sl slot, l, r int) *big.Int
	var countElem func(sl slot, l, k, r int) *big.Int

	symWays = func(s ssym, a, b int) *big.Int {
		if s.kind == symKind(0) {
			return countSym(s.nt, a, b)
		}
		return big.NewInt(1)
	}

	countElem = func(sl slot, l, k, r int) *big.Int {
		prod := f.sg.nts[sl.nt].alts[sl.alt]
		last := symWays(prod[sl.dot-1], k, r)
		var pre *big.Int
		switch sl.dot {
		case 1:
			pre = big.NewInt(1)
		case 2:
			pre = symWays(prod[0], l, k)
		default:
			pre = countInter(slot{sl.nt, sl.alt, sl.dot - 1}, l, k)
		}
		return new(big.Int).Mul(pre, last)
	}

	countInter = func(sl slot, l, r int) *big.Int {
		id := bsrNodeID{inter: true, slot: sl, l: l, r: r}
		if v, ok := memo[id]; ok {
			return v
		}
		if onStack[id] {
			infinite = true
			return big.NewInt(1)
		}
		onStack[id] = true
		total := big.NewInt(0)
		for _, k := range f.index[bsrKey{sl, l, r}] {
			total.Add(total, countElem(sl, l, k, r))
		}
		onStack[id] = false
		memo[id] = total
		return total
	}

	countSym = func(nt, l, r int) *big.Int {
		id := bsrNodeID{nt: nt, l: l, r: r}
		if v, ok := memo[id]; ok {
			return v
		}
		if onStack[id] {
			infinite = true
			return big.NewInt(1)
		}
		onStack[id] = true
		total := big.NewInt(0)
		for ai, prod := range f.sg.nts[nt].alts {
			sl := slot{nt, ai, len(prod)}
			for _, k := range f.index[bsrKey{sl, l, r}] {
				total.Add(total, countElem(sl, l, k, r))
			}
		}
		onStack[id] = false
		memo[id] = total
		return total
	}

	res := countSym(f.start, 0, f.n)
	if infinite {
		return big.NewInt(-1)
	}
	return res
}

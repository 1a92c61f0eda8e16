package zz_rt

import big "math/big"

func vr_Result_NumTrees(r *Result) *big.Int {
	if !vr_Result_Valid(r) {
		return big.NewInt(0)
	}
	memo := map[nodeID]*big.Int{}
	onStack := map[nodeID]bool{}
	infinite := false

	var symWays func(s qSym, a, b int) *big.Int
	var countSym func(nt, l, rr int) *big.Int
	var countInter func(sl, l, rr int) *big.Int
	var countElem func(sl, l, k, rr int) *big.Int

	symWays = func(s qSym, a, b int) *big.Int {
		if s.kind == 0 {
			return countSym(s.nt, a, b)
		}
		return big.NewInt(1)
	}
	countElem = func(sl, l, k, rr int) *big.Int {
		si := slotInfo[sl]
		prod := qNTs[si.nt].alts[si.alt]
		last := symWays(prod[si.dot-1], k, rr)
		var pre *big.Int
		switch {
		case si.dot == 1:
			pre = big.NewInt(1)
		case si.dot == 2:
			pre = symWays(prod[0], l, k)
		default:
			pre = countInter(sl-1, l, k)
		}
		return new(big.Int).Mul(pre, last)
	}
	countInter = func(sl, l, rr int) *big.Int {
		id := nodeID{sl: sl, nt: -1, l: l, r: rr}
		if v, ok := memo[id]; ok {
			return v
		}
		if onStack[id] {
			infinite = true
			return big.NewInt(1)
		}
		onStack[id] = true
		total := big.NewInt(0)
		for _, k := range r.index[bsrKey{sl, l, rr}] {
			total.Add(total, countElem(sl, l, k, rr))
		}
		onStack[id] = false
		memo[id] = total
		return total
	}
	countSym = func(nt, l, rr int) *big.Int {
		id := nodeID{sl: -1, nt: nt, l: l, r: rr}
		if v, ok := memo[id]; ok {
			return v
		}
		if onStack[id] {
			infinite = true
			return big.NewInt(1)
		}
		onStack[id] = true
		total := big.NewInt(0)
		for _, sl := range ntComplete[nt] {
			for _, k := range r.index[bsrKey{sl, l, rr}] {
				total.Add(total, countElem(sl, l, k, rr))
			}
		}
		onStack[id] = false
		memo[id] = total
		return total
	}
	res := countSym(0, 0, r.n)
	if infinite {
		return big.NewInt(-1)
	}
	return res
}

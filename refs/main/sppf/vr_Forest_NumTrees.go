package goabnf

import big "math/big"

func vr_Forest_NumTrees(f *Forest) *big.Int {
	if f.root == nil {
		return big.NewInt(0)
	}
	memo := map[*gnode]*big.Int{}
	onStack := map[*gnode]bool{}
	infinite := false
	var count func(n *gnode) *big.Int
	count = func(n *gnode) *big.Int {
		if v, ok := memo[n]; ok {
			return v
		}
		if onStack[n] {
			infinite = true
			return big.NewInt(1)
		}
		onStack[n] = true
		total := big.NewInt(0)
		if len(n.packs) == 0 {
			total = big.NewInt(1)
		}
		for _, pk := range n.packs {
			prod := big.NewInt(1)
			for _, c := range pk {
				prod.Mul(prod, count(c))
			}
			total.Add(total, prod)
		}
		onStack[n] = false
		memo[n] = total
		return total
	}
	res := count(f.root)
	if infinite {
		return big.NewInt(-1)
	}
	return res
}

package ref

import "math/big"

// Exact derivation counting. An item is a (node, state, i, j) that is known to
// be productive; its packs are the different ways to derive it. A cycle among
// reachable productive items means infinitely many derivations.

type item struct {
	p    any
	c    int
	i, j int
}

type counter struct {
	r     *Rec
	memo  map[item]*big.Int
	gray  map[item]bool
	inf   bool
	limit int
	over  bool
	suf   map[item]bool
	reps  map[repAt][][]bool
}

type repAt struct {
	r *Rep
	i int
}

// Count returns the number of derivations of the whole input, -1 when
// infinite. ok is false when the item budget was exhausted.
func Count(r *Rec, rule string, limit int) (n *big.Int, ok bool) {
	rl := r.G.Find(rule)
	if rl == nil || !r.Has(rl, 0, r.n) {
		return new(big.Int), true
	}
	c := &counter{r: r, memo: map[item]*big.Int{}, gray: map[item]bool{}, suf: map[item]bool{}, limit: limit}
	v := c.count(item{rl, 0, 0, r.n})
	if c.over {
		return nil, false
	}
	if c.inf {
		return big.NewInt(-1), true
	}
	return v, true
}

func (c *counter) count(it item) *big.Int {
	if v, ok := c.memo[it]; ok {
		return v
	}
	if c.over || c.inf {
		return new(big.Int)
	}
	if c.gray[it] {
		c.inf = true
		return new(big.Int)
	}
	if len(c.memo)+len(c.gray) > c.limit {
		c.over = true
		return new(big.Int)
	}
	c.gray[it] = true
	total := new(big.Int)
	c.packs(it, func(kids ...item) {
		pr := big.NewInt(1)
		for _, k := range kids {
			pr.Mul(pr, c.count(k))
		}
		total.Add(total, pr)
	})
	delete(c.gray, it)
	c.memo[it] = total
	return total
}

// sufOK: concat from rep index k derives [i,j].
func (c *counter) sufOK(v *Concat, k, i, j int) bool {
	if k == len(v.Reps) {
		return i == j
	}
	it := item{v, k, i, j}
	if b, ok := c.suf[it]; ok {
		return b
	}
	res := false
	for m, b := range c.r.Ends(v.Reps[k], i) {
		if b && m <= j && c.sufOK(v, k+1, m, j) {
			res = true
			break
		}
	}
	c.suf[it] = res
	return res
}

func satur(rp *Rep, c int) int {
	if rp.Max == Inf && c > rp.Min {
		return rp.Min
	}
	return c
}

// repOK: with c elements already consumed, the repetition can finish over [i,j].
func (c *counter) repOK(rp *Rep, cnt, i, j int) bool {
	it := item{rp, cnt, i, j}
	if b, ok := c.suf[it]; ok {
		return b
	}
	// remaining counts required/allowed
	lo, hi := max(rp.Min-cnt, 0), Inf
	if rp.Max != Inf {
		hi = rp.Max - cnt
	}
	lim := j - i + 1
	lo2, hi2 := min(lo, lim), lim
	if hi != Inf {
		hi2 = min(hi, lim)
	}
	res := false
	if hi == Inf || lo <= hi {
		cur := map[int]bool{i: true}
		for k := 0; ; k++ {
			if k >= lo2 && cur[j] {
				res = true
				break
			}
			if k == hi2 {
				break
			}
			nx := map[int]bool{}
			for a := range cur {
				for b, ok := range c.r.Ends(rp.Elem, a) {
					if ok && b <= j {
						nx[b] = true
					}
				}
			}
			cur = nx
			if len(cur) == 0 {
				break
			}
		}
	}
	c.suf[it] = res
	return res
}

func (c *counter) packs(it item, yield func(...item)) {
	switch v := it.p.(type) {
	case *Rule:
		yield(item{v.Alt, 0, it.i, it.j})
	case *Alt:
		for _, cc := range v.Concats {
			if c.sufOK(cc, 0, it.i, it.j) {
				yield(item{cc, 0, it.i, it.j})
			}
		}
	case *Concat:
		k := it.c
		if k == len(v.Reps) {
			yield()
			return
		}
		for m, b := range c.r.Ends(v.Reps[k], it.i) {
			if b && m <= it.j && c.sufOK(v, k+1, m, it.j) {
				yield(item{v.Reps[k], 0, it.i, m}, item{v, k + 1, m, it.j})
			}
		}
	case *Rep:
		if it.i == it.j && it.c >= v.Min {
			yield()
		}
		if v.Max == Inf || it.c < v.Max {
			nc := satur(v, it.c+1)
			for m, b := range c.r.Ends(v.Elem, it.i) {
				if b && m <= it.j && c.repOK(v, nc, m, it.j) {
					yield(item{v.Elem, 0, it.i, m}, item{v, nc, m, it.j})
				}
			}
		}
	case *Elem:
		switch v.Kind {
		case KRule:
			yield(item{c.r.find(v.Name), 0, it.i, it.j})
		case KGroup:
			yield(item{v.Alt, 0, it.i, it.j})
		case KOption:
			if it.i == it.j {
				yield()
			}
			if c.r.Has(v.Alt, it.i, it.j) {
				yield(item{v.Alt, 0, it.i, it.j})
			}
		default:
			yield()
		}
	}
}

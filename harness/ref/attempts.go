package ref

import "sort"

// Attempts explores, top down, everything a predictive parse of the rule tries:
// it returns the furthest offset up to which some attempt consumed the input
// and the sorted, distinct texts of the terminals tried there in vain.
func Attempts(r *Rec, rule string) (far int, expected []string) {
	type call struct {
		p any
		i int
	}
	seen := map[call]bool{}
	fails := map[int]map[string]bool{}
	var work []call
	push := func(p any, i int) {
		c := call{p, i}
		if !seen[c] {
			seen[c] = true
			work = append(work, c)
		}
	}
	rl := r.find(rule)
	if rl == nil {
		return 0, nil
	}
	push(rl.Alt, 0)
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		switch v := c.p.(type) {
		case *Alt:
			for _, cc := range v.Concats {
				push(cc, c.i)
			}
		case *Concat:
			cur := make([]bool, r.n+1)
			cur[c.i] = true
			for _, rp := range v.Reps {
				nx := make([]bool, r.n+1)
				for k, b := range cur {
					if b {
						push(rp, k)
						for j, bb := range r.Ends(rp, k) {
							if bb {
								nx[j] = true
							}
						}
					}
				}
				cur = nx
			}
		case *Rep:
			if v.Max != Inf && v.Max < v.Min {
				continue
			}
			lim := r.n - c.i + 1
			hi := lim
			if v.Max != Inf {
				hi = min(v.Max, lim)
			}
			cur := make([]bool, r.n+1)
			cur[c.i] = true
			for k := 0; k < hi; k++ {
				nx := make([]bool, r.n+1)
				for i, b := range cur {
					if b {
						push(v.Elem, i)
						for j, bb := range r.Ends(v.Elem, i) {
							if bb {
								nx[j] = true
							}
						}
					}
				}
				cur = nx
			}
		case *Elem:
			switch v.Kind {
			case KRule:
				if x := r.find(v.Name); x != nil {
					push(x.Alt, c.i)
				}
			case KGroup, KOption:
				push(v.Alt, c.i)
			default:
				if j := MatchTerm(v, r.In, c.i); j >= 0 {
					far = max(far, j)
				} else {
					far = max(far, c.i)
					if fails[c.i] == nil {
						fails[c.i] = map[string]bool{}
					}
					fails[c.i][v.String()] = true
				}
			}
		}
	}
	for s := range fails[far] {
		expected = append(expected, s)
	}
	sort.Strings(expected)
	return far, expected
}

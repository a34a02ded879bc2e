package gen

import (
	"fmt"
	"math/big"
	"math/rand/v2"
	"strings"

	"verif/ref"
)

// Neighbour copies a grammar with one local mistake: what an implementation
// that confused something would read. Its words are near misses (or, all the
// same, words) of the original.
func Neighbour(rng *rand.Rand, gr *ref.Grammar, root string) *ref.Grammar {
	out := &ref.Grammar{}
	reach := gr.Reach(root)
	reach[ref.Lower(root)] = true
	var cats []*ref.Concat
	var alts []*ref.Alt
	var walk func(a *ref.Alt)
	walk = func(a *ref.Alt) {
		alts = append(alts, a)
		for _, c := range a.Concats {
			cats = append(cats, c)
			for _, r := range c.Reps {
				if r.Elem.Alt != nil {
					walk(r.Elem.Alt)
				}
			}
		}
	}
	for _, r := range gr.Rules {
		n := &ref.Rule{Name: r.Name, Alt: cloneAlt(r.Alt)}
		out.Rules = append(out.Rules, n)
		if reach[ref.Lower(r.Name)] {
			walk(n.Alt)
		}
	}
	if len(cats) == 0 {
		return nil
	}
	for tries := 0; tries < 12; tries++ {
		c := cats[rng.IntN(len(cats))]
		if len(c.Reps) == 0 {
			continue
		}
		i := rng.IntN(len(c.Reps))
		r := c.Reps[i]
		switch rng.IntN(10) {
		case 0, 1: // a bound off by one, or gone
			switch rng.IntN(5) {
			case 0:
				if r.Min == 0 {
					continue
				}
				r.Min--
			case 1, 2:
				if r.Max == ref.Inf {
					continue
				}
				r.Max++
			case 3:
				if r.Max == ref.Inf || r.Max < 1 {
					continue
				}
				r.Min, r.Max = r.Max+1, r.Max+1
			default:
				if r.Max == ref.Inf {
					continue
				}
				r.Max = ref.Inf
			}
			if r.Max != ref.Inf && r.Max < r.Min {
				r.Max = r.Min
			}
			return out
		case 2: // an element lost, doubled or misplaced
			switch rng.IntN(3) {
			case 0:
				c.Reps = append(append([]*ref.Rep{}, c.Reps[:i]...), c.Reps[i+1:]...)
			case 1:
				c.Reps = append(append([]*ref.Rep{}, c.Reps[:i+1]...), c.Reps[i:]...)
			default:
				j := rng.IntN(len(c.Reps))
				if i == j {
					continue
				}
				c.Reps[i], c.Reps[j] = c.Reps[j], c.Reps[i]
			}
			return out
		case 3: // another alternative's elements run on
			a := alts[rng.IntN(len(alts))]
			if len(a.Concats) < 2 {
				continue
			}
			x, y := a.Concats[rng.IntN(len(a.Concats))], a.Concats[rng.IntN(len(a.Concats))]
			if x == y {
				continue
			}
			k, l := rng.IntN(len(x.Reps)+1), rng.IntN(len(y.Reps)+1)
			a.Concats = append(a.Concats, &ref.Concat{Reps: append(append([]*ref.Rep{}, x.Reps[:k]...), y.Reps[l:]...)})
			return out
		case 4:
			switch r.Elem.Kind {
			case ref.KGroup:
				r.Elem.Kind = ref.KOption
			case ref.KRule:
				o := out.Rules[rng.IntN(len(out.Rules))].Name
				if ref.Lower(o) == ref.Lower(r.Elem.Name) {
					continue
				}
				r.Elem.Name = o
			default:
				continue
			}
			return out
		default:
			if e := confuse(rng, r.Elem); e != nil {
				r.Elem = e
				return out
			}
		}
	}
	return nil
}

func hexSeries(rs ...rune) *ref.Elem {
	e := &ref.Elem{Kind: ref.KNum, Base: 'x'}
	for _, r := range rs {
		if !ref.ValidScalar(r) {
			return nil
		}
		e.Vals = append(e.Vals, fmt.Sprintf("%X", r))
	}
	if len(e.Vals) == 0 {
		return nil
	}
	return e
}

// confuse misreads a terminal.
func confuse(rng *rand.Rand, e *ref.Elem) *ref.Elem {
	switch e.Kind {
	case ref.KStr:
		rs := []rune(e.Str)
		if len(rs) == 0 {
			return nil
		}
		i := rng.IntN(len(rs))
		c := rs[i]
		switch rng.IntN(7) {
		case 0:
			c ^= 32
		case 1:
			switch c | 32 {
			case 'k':
				c = '\u212a'
			case 's':
				c = '\u017f'
			case 'i':
				c = []rune{'\u0130', '\u0131'}[rng.IntN(2)]
			default:
				c += []rune{0x20, -0x20, 0x80, 0x100, 0x10000}[rng.IntN(5)]
			}
		case 2:
			c++
		case 3:
			c--
		case 4:
			rs = append(rs, rs[len(rs)-1])
		case 5:
			rs = rs[:len(rs)-1]
		default:
			return hexSeries(append(append([]rune{}, rs[:i]...), rs[i+1:]...)...)
		}
		if i < len(rs) {
			rs[i] = c
		}
		return hexSeries(rs...)
	case ref.KNum:
		vals := make([]rune, len(e.Vals))
		for i, v := range e.Vals {
			vals[i] = ref.RuneValue(v, e.Base)
		}
		i := rng.IntN(len(vals))
		n := new(big.Int)
		n.SetString(e.Vals[i], map[byte]int{'b': 2, 'd': 10, 'x': 16}[e.Base|32])
		low := func(bits uint) rune {
			m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), bits), big.NewInt(1))
			return rune(new(big.Int).And(n, m).Int64())
		}
		if !ref.ValidScalar(vals[i]) {
			vals[i] = []rune{0xFFFD, 0x10FFFF, 0, low(32), low(31), low(21), low(16), low(8), 0xE000, 0xD7FF}[rng.IntN(10)]
		} else {
			switch rng.IntN(8) {
			case 0:
				vals[i]++
			case 1:
				vals[i]--
			case 2:
				vals[i] = low(16)
			case 3:
				vals[i] = low(8)
			case 4: // the digits in another base
				m, ok := new(big.Int).SetString(e.Vals[i], []int{2, 8, 10, 16}[rng.IntN(4)])
				if !ok || !m.IsInt64() || m.Int64() > ref.MaxRune {
					return nil
				}
				vals[i] = rune(m.Int64())
			case 5:
				vals[i] ^= 32
			case 6: // its bytes, one character each
				if e.Range || len(e.Vals) > 1 || vals[i] < 0x80 {
					return nil
				}
				return hexSeries(vals[i]>>8, vals[i]&0xFF)
			default:
				if len(vals) == 2 { // a range against a series
					if o := hexSeries(vals...); o != nil {
						if o.Range = !e.Range; o.Range && vals[0] > vals[1] {
							return nil
						}
						return o
					}
				}
				return nil
			}
		}
		o := hexSeries(vals...)
		if o != nil && e.Range {
			if o.Range = true; vals[0] > vals[1] {
				o.Vals[0], o.Vals[1] = o.Vals[1], o.Vals[0]
			}
		}
		return o
	case ref.KProse:
		s := strings.Trim(e.Str, "<>")
		if s == "" {
			return &ref.Elem{Kind: ref.KStr}
		}
		return &ref.Elem{Kind: ref.KStr, Str: strings.ReplaceAll(s, `"`, "")}
	}
	return nil
}

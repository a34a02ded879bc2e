package ref

import (
	"math/rand/v2"
	"unicode/utf8"
)

// Sampler draws random words of a rule.
type Sampler struct {
	c     *Costs
	rng   *rand.Rand
	out   []byte
	limit int
	fuel  int
}

func NewSampler(g *Grammar, root string, rng *rand.Rand) *Sampler {
	return &Sampler{c: Analyse(g, root), rng: rng}
}

// Word draws a word of about limit bytes at most, ok false when the rule has
// no (reasonably small) word.
func (s *Sampler) Word(rule string, limit int) ([]byte, bool) {
	if s.c.Rule(rule) > 4000 {
		return nil, false
	}
	s.out = nil
	s.limit = limit
	s.fuel = 400
	if !s.rule(rule, 0) {
		return nil, false
	}
	return s.out, true
}

func (s *Sampler) over(d int) bool { return len(s.out) >= s.limit || s.fuel <= 0 || d > 60 }

func (s *Sampler) rule(name string, d int) bool {
	s.fuel--
	r := s.c.G.Find(name)
	return r != nil && s.alt(r.Alt, d+1)
}

func (s *Sampler) alt(a *Alt, d int) bool {
	var ok []*Concat
	best, bestC := (*Concat)(nil), CostInf
	for _, c := range a.Concats {
		v := s.c.Concat(c)
		if v < 4000 {
			ok = append(ok, c)
		}
		if v < bestC {
			best, bestC = c, v
		}
	}
	if best == nil {
		return false
	}
	c := best
	if !s.over(d) && len(ok) > 0 {
		c = ok[s.rng.IntN(len(ok))]
	}
	for _, r := range c.Reps {
		if !s.rep(r, d) {
			return false
		}
	}
	return true
}

func (s *Sampler) rep(r *Rep, d int) bool {
	n := r.Min
	if s.c.Elem(r.Elem) < 4000 && !s.over(d) {
		ex := 0
		switch s.rng.IntN(8) {
		case 0:
			ex = s.rng.IntN(5)
			if s.limit > 60 {
				ex = s.rng.IntN(s.limit)
			}
		case 1, 2, 3:
			ex = 1
		case 4:
			ex = 2
		case 5:
			if r.Max != Inf && r.Max-r.Min < 300 {
				ex = r.Max - r.Min
			}
		}
		if r.Max != Inf {
			ex = min(ex, r.Max-r.Min)
		}
		n += ex
	}
	if n > 4000 {
		if s.c.NullElem(r.Elem) {
			return true
		}
		return false
	}
	for i := 0; i < n; i++ {
		if !s.elem(r.Elem, d) {
			return false
		}
	}
	return true
}

func (s *Sampler) elem(e *Elem, d int) bool {
	switch e.Kind {
	case KRule:
		return s.rule(e.Name, d)
	case KGroup:
		return s.alt(e.Alt, d)
	case KOption:
		if s.c.Alt(e.Alt) >= 4000 || s.over(d) || s.rng.IntN(2) == 0 {
			return true
		}
		return s.alt(e.Alt, d)
	}
	if TermDead(e) {
		return false
	}
	w := EmitTerm(e, s.rng)
	s.out = append(s.out, w...)
	return true
}

// EmitTerm draws a random word of a live terminal.
func EmitTerm(e *Elem, rng *rand.Rand) []byte {
	var out []byte
	switch e.Kind {
	case KStr:
		for _, r := range e.Str {
			if !e.Sens && (r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z') && rng.IntN(2) == 0 {
				r ^= 32
			}
			out = utf8.AppendRune(out, r)
		}
	case KNum:
		if !e.Range {
			for _, v := range e.Vals {
				out = utf8.AppendRune(out, RuneValue(v, e.Base))
			}
			return out
		}
		lo, hi := RuneValue(e.Vals[0], e.Base), min(RuneValue(e.Vals[1], e.Base), MaxRune)
		for t := 0; ; t++ {
			var r rune
			switch rng.IntN(4) {
			case 0:
				r = lo
			case 1:
				r = hi
			default:
				r = lo + rune(rng.IntN(int(hi-lo)+1))
			}
			if t > 50 {
				if lo < 0xD800 {
					r = lo
				} else {
					r = hi
				}
			}
			if ValidScalar(r) {
				return utf8.AppendRune(nil, r)
			}
		}
	}
	return out
}

package ref

// Likely lists words of a rule with a lower bound of their probability when
// every choice is drawn evenly: alternatives, options, numbers of repetitions
// (up to hi(rep)), letter cases and characters of ranges. Words below pmin are
// left out, and ok is false when the enumeration grew too large.
func Likely(g *Grammar, rule string, hi func(*Rep) int, pmin float64) (words map[string]float64, ok bool) {
	l := &likely{g: g, hi: hi, pmin: pmin, memo: map[at]dist{}}
	r := g.Find(rule)
	if r == nil {
		return nil, false
	}
	words = l.alt(r.Alt, 0)
	return words, !l.blown
}

type likely struct {
	g     *Grammar
	hi    func(*Rep) int
	pmin  float64
	work  int
	blown bool
	memo  map[at]dist
}

type at struct {
	r     *Rule
	depth int
}

type dist = map[string]float64

func (l *likely) put(d dist, w string, p float64) {
	if p >= l.pmin && !l.blown {
		d[w] += p
		if l.work++; l.work > 200_000 {
			l.blown = true
		}
	}
}

func (l *likely) then(a, b dist, scale float64) dist {
	out := dist{}
	for x, p := range a {
		for y, q := range b {
			l.put(out, x+y, p*q*scale)
		}
	}
	return out
}

func (l *likely) alt(a *Alt, depth int) dist {
	out := dist{}
	n := float64(len(a.Concats))
	for _, c := range a.Concats {
		d := dist{"": 1}
		for _, r := range c.Reps {
			d = l.then(d, l.rep(r, depth), 1)
		}
		for w, p := range d {
			l.put(out, w, p/n)
		}
	}
	return out
}

func (l *likely) rep(r *Rep, depth int) dist {
	hi := l.hi(r)
	if r.Max != Inf && hi > r.Max {
		hi = r.Max
	}
	if r.Max != Inf && r.Max < r.Min || hi < r.Min {
		return nil
	}
	out := dist{}
	if hi > 300 {
		if r.Min > 300 {
			return nil
		}
	}
	share := 1 / float64(hi-r.Min+1)
	if r.Min == 0 {
		l.put(out, "", share)
		if hi == 0 {
			return out
		}
	}
	e := l.elem(r.Elem, depth)
	some := dist{}
	for w, p := range e {
		if w != "" {
			some[w] = p
		}
	}
	// an element that comes out empty ends a repetition
	d := dist{"": 1}
	for n := 1; n <= hi && len(d) > 0 && n <= 300; n++ {
		if n >= r.Min {
			for w, p := range l.then(d, e, share) {
				l.put(out, w, p)
			}
		} else if p := e[""]; p > 0 {
			for w, q := range d {
				l.put(out, w, p*q)
			}
		}
		d = l.then(d, some, 1)
	}
	return out
}

func (l *likely) elem(e *Elem, depth int) dist {
	switch e.Kind {
	case KRule:
		r := l.g.Find(e.Name)
		if r == nil || depth > 5 {
			return nil
		}
		k := at{r, depth}
		d, ok := l.memo[k]
		if !ok {
			d = l.alt(r.Alt, depth+1)
			l.memo[k] = d
		}
		return d
	case KGroup:
		return l.alt(e.Alt, depth)
	case KOption:
		out := dist{}
		l.put(out, "", 0.5)
		for w, p := range l.alt(e.Alt, depth) {
			l.put(out, w, p/2)
		}
		return out
	case KStr:
		d := dist{"": 1}
		for _, c := range e.Str {
			one := dist{string(c): 1}
			if lo := c | 32; !e.Sens && c < 128 && lo >= 'a' && lo <= 'z' {
				one = dist{string(lo): 0.5, string(lo ^ 32): 0.5}
			}
			d = l.then(d, one, 1)
		}
		return d
	case KNum:
		if TermDead(e) {
			return nil
		}
		if !e.Range {
			s := ""
			for _, v := range e.Vals {
				s += string(RuneValue(v, e.Base))
			}
			return dist{s: 1}
		}
		lo, hi := RuneValue(e.Vals[0], e.Base), min(RuneValue(e.Vals[1], e.Base), MaxRune)
		n := 0
		for c := lo; c <= hi && n < 400; c++ {
			if ValidScalar(c) {
				n++
			}
		}
		if n >= 400 {
			return nil
		}
		out := dist{}
		for c := lo; c <= hi; c++ {
			if ValidScalar(c) {
				l.put(out, string(c), 1/float64(n))
			}
		}
		return out
	}
	return nil
}

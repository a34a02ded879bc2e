package ref

// Exact membership: least fixpoint of the "end positions" relation, computed
// with a worklist and dependency tracking. No left-recursion special case.

type nodeKey struct {
	p any // *Rule, *Alt or *Elem or *Concat or *Rep
	i int
}

type entry struct {
	key  nodeKey
	set  []bool // reachable end positions
	deps map[*entry]bool
	inQ  bool
	init bool
}

// Rec answers reachability queries for one (grammar, input) pair.
type Rec struct {
	G     *Grammar
	In    []byte
	n     int
	tab   map[nodeKey]*entry
	queue []*entry
	cur   *entry
	steps int
	work  int // positions looked at
	limit int // give up past that much work (0: never)
	rules map[string]*Rule
}

func NewRec(g *Grammar, in []byte) *Rec {
	return &Rec{G: g, In: in, n: len(in), tab: map[nodeKey]*entry{}, rules: map[string]*Rule{}}
}

func (r *Rec) find(name string) *Rule {
	if v, ok := r.rules[name]; ok {
		return v
	}
	v := r.G.Find(name)
	r.rules[name] = v
	return v
}

func (r *Rec) get(p any, i int) *entry {
	k := nodeKey{p, i}
	e := r.tab[k]
	if e == nil {
		e = &entry{key: k, set: make([]bool, r.n+1), deps: map[*entry]bool{}}
		r.tab[k] = e
		r.push(e)
	}
	return e
}

func (r *Rec) push(e *entry) {
	if !e.inQ {
		e.inQ = true
		r.queue = append(r.queue, e)
	}
}

// read returns the current set of (p,i), registering the current entry as dependent.
func (r *Rec) read(p any, i int) []bool {
	r.work += r.n + 1
	e := r.get(p, i)
	if r.cur != nil {
		e.deps[r.cur] = true
	}
	return e.set
}

func (r *Rec) solve() {
	for len(r.queue) > 0 {
		if r.limit > 0 && r.work > r.limit {
			return
		}
		e := r.queue[len(r.queue)-1]
		r.queue = r.queue[:len(r.queue)-1]
		e.inQ = false
		r.cur = e
		ns := r.eval(e.key.p, e.key.i)
		r.cur = nil
		r.steps++
		ch := false
		for j, b := range ns {
			if b && !e.set[j] {
				e.set[j] = true
				ch = true
			}
		}
		if ch {
			for d := range e.deps {
				r.push(d)
			}
		}
	}
}

func (r *Rec) eval(p any, i int) []bool {
	out := make([]bool, r.n+1)
	or := func(s []bool) {
		for j, b := range s {
			if b {
				out[j] = true
			}
		}
	}
	switch v := p.(type) {
	case *Rule:
		or(r.read(v.Alt, i))
	case *Alt:
		for _, c := range v.Concats {
			or(r.read(c, i))
		}
	case *Concat:
		cur := make([]bool, r.n+1)
		cur[i] = true
		for _, rp := range v.Reps {
			nx := make([]bool, r.n+1)
			any := false
			for k, b := range cur {
				if b {
					for j, bb := range r.read(rp, k) {
						if bb {
							nx[j] = true
							any = true
						}
					}
				}
			}
			cur = nx
			if !any {
				break
			}
		}
		or(cur)
	case *Rep:
		if v.Max != Inf && v.Max < v.Min {
			return out
		}
		lim := r.n - i + 1
		lo, hi := min(v.Min, lim), lim
		if v.Max != Inf {
			hi = min(v.Max, lim)
		}
		cur := make([]bool, r.n+1)
		cur[i] = true
		for c := 0; ; c++ {
			if c >= lo {
				or(cur)
			}
			if c == hi {
				break
			}
			nx := make([]bool, r.n+1)
			any := false
			for k, b := range cur {
				if b {
					for j, bb := range r.read(v.Elem, k) {
						if bb {
							nx[j] = true
							any = true
						}
					}
				}
			}
			cur = nx
			if !any {
				break
			}
		}
	case *Elem:
		switch v.Kind {
		case KRule:
			if rl := r.find(v.Name); rl != nil {
				or(r.read(rl, i))
			}
		case KGroup:
			or(r.read(v.Alt, i))
		case KOption:
			out[i] = true
			or(r.read(v.Alt, i))
		default:
			if j := MatchTerm(v, r.In, i); j >= 0 {
				out[j] = true
			}
		}
	}
	return out
}

// Ends returns the end positions reachable from node p at i.
func (r *Rec) Ends(p any, i int) []bool {
	r.get(p, i)
	r.solve()
	return r.tab[nodeKey{p, i}].set
}

// Has reports whether node p derives In[i:j].
func (r *Rec) Has(p any, i, j int) bool { return r.Ends(p, i)[j] }

// Member reports whether the whole input is derivable from the rule.
func Member(g *Grammar, rule string, in []byte) bool {
	rl := g.Find(rule)
	if rl == nil {
		return false
	}
	r := NewRec(g, in)
	return r.Has(rl, 0, len(in))
}

// MemberWithin is Member under a work limit; done is false when it gave up.
func MemberWithin(g *Grammar, rule string, in []byte, limit int) (ok, done bool, work int) {
	rl := g.Find(rule)
	if rl == nil {
		return false, true, 0
	}
	r := NewRec(g, in)
	r.limit = limit
	ok = r.Has(rl, 0, len(in))
	return ok, ok || r.work <= limit, r.work
}

package ref

// Deps returns the lower-cased names referenced by a rule.
func Deps(r *Rule) map[string]bool {
	out := map[string]bool{}
	WalkAlt(r.Alt, func(rp *Rep) {
		if rp.Elem.Kind == KRule {
			out[Lower(rp.Elem.Name)] = true
		}
	})
	return out
}

// Reach returns every name (lower-cased) reachable from name, excluding name
// itself unless it is reached again. Undefined names are included.
func (g *Grammar) Reach(name string) map[string]bool {
	out := map[string]bool{}
	var visit func(n string)
	visit = func(n string) {
		r := g.Find(n)
		if r == nil {
			return
		}
		for d := range Deps(r) {
			if !out[d] {
				out[d] = true
				visit(d)
			}
		}
	}
	visit(Lower(name))
	return out
}

// ContainsCycle: some rule reachable from name (or name itself) reaches itself.
func (g *Grammar) ContainsCycle(name string) bool {
	n := Lower(name)
	set := g.Reach(n)
	if set[n] {
		return true
	}
	for d := range set {
		if g.Reach(d)[d] {
			return true
		}
	}
	return false
}

// UndefReach / ProseReach: an undefined name / a prose-val is reachable.
func (g *Grammar) UndefReach(name string) bool {
	for d := range g.Reach(name) {
		if g.Find(d) == nil {
			return true
		}
	}
	return false
}

func (g *Grammar) anyRep(name string, f func(*Rep) bool) bool {
	found := false
	scan := func(n string) {
		if r := g.Find(n); r != nil {
			WalkAlt(r.Alt, func(rp *Rep) {
				if f(rp) {
					found = true
				}
			})
		}
	}
	scan(name)
	for d := range g.Reach(name) {
		scan(d)
	}
	return found
}

func (g *Grammar) ProseReach(name string) bool {
	return g.anyRep(name, func(rp *Rep) bool { return rp.Elem.Kind == KProse })
}

func (g *Grammar) AnyRep(name string, f func(*Rep) bool) bool { return g.anyRep(name, f) }

const CostInf = 1 << 40

// Costs holds, per node, the least derivation size (number of rule expansions
// plus terminals) of some word, CostInf when it derives nothing; and
// nullability.
type Costs struct {
	G     *Grammar
	rule  map[string]int
	null  map[string]bool
	rules map[string]*Rule
}

func Analyse(g *Grammar, root string) *Costs {
	c := &Costs{G: g, rule: map[string]int{}, null: map[string]bool{}, rules: map[string]*Rule{}}
	names := []string{Lower(root)}
	for d := range g.Reach(root) {
		if d != Lower(root) {
			names = append(names, d)
		}
	}
	for _, r := range g.Rules {
		l := Lower(r.Name)
		if _, ok := c.rule[l]; !ok {
			names = append(names, l)
		}
	}
	for _, n := range names {
		c.rule[n] = CostInf
		c.rules[n] = g.Find(n)
	}
	for ch := true; ch; {
		ch = false
		for _, n := range names {
			r := c.rules[n]
			if r == nil {
				continue
			}
			if v := c.Alt(r.Alt) + 1; v < c.rule[n] {
				c.rule[n] = v
				ch = true
			}
			if !c.null[n] && c.NullAlt(r.Alt) {
				c.null[n] = true
				ch = true
			}
		}
	}
	return c
}

func (c *Costs) Rule(name string) int {
	if v, ok := c.rule[Lower(name)]; ok {
		return min(v, CostInf)
	}
	return CostInf
}
func (c *Costs) Nullable(name string) bool { return c.null[Lower(name)] }

func (c *Costs) Alt(a *Alt) int {
	best := CostInf
	for _, cc := range a.Concats {
		best = min(best, c.Concat(cc))
	}
	return best
}

func (c *Costs) Concat(cc *Concat) int {
	t := 0
	for _, r := range cc.Reps {
		t += c.Rep(r)
		if t >= CostInf {
			return CostInf
		}
	}
	return t
}

func (c *Costs) Rep(r *Rep) int {
	if r.Max != Inf && r.Max < r.Min {
		return CostInf
	}
	if r.Min == 0 {
		return 0
	}
	e := c.Elem(r.Elem)
	if e == 0 {
		return 0
	}
	if e >= CostInf || r.Min > CostInf/e {
		return CostInf
	}
	return r.Min * e
}

func (c *Costs) Elem(e *Elem) int {
	switch e.Kind {
	case KRule:
		return c.Rule(e.Name)
	case KGroup:
		return c.Alt(e.Alt)
	case KOption:
		return 0
	}
	if TermDead(e) {
		return CostInf
	}
	return 1
}

func (c *Costs) NullAlt(a *Alt) bool {
	for _, cc := range a.Concats {
		ok := true
		for _, r := range cc.Reps {
			if !c.NullRep(r) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func (c *Costs) NullRep(r *Rep) bool {
	if r.Max != Inf && r.Max < r.Min {
		return false
	}
	return r.Min == 0 || c.NullElem(r.Elem)
}

func (c *Costs) NullElem(e *Elem) bool {
	switch e.Kind {
	case KRule:
		return c.null[Lower(e.Name)]
	case KGroup:
		return c.NullAlt(e.Alt)
	case KOption:
		return true
	}
	return TermEmpty(e)
}

// Productive reports whether the rule derives at least one word (prose,
// undefined rules and impossible numerals derive none).
func (g *Grammar) Productive(rule string) bool {
	return Analyse(g, rule).prod()[Lower(rule)]
}

// prod is exact productivity, independent of repetition magnitudes.
func (c *Costs) prod() map[string]bool {
	p := map[string]bool{}
	var alt func(a *Alt) bool
	elem := func(e *Elem) bool {
		switch e.Kind {
		case KRule:
			return p[Lower(e.Name)]
		case KGroup:
			return alt(e.Alt)
		case KOption:
			return true
		}
		return !TermDead(e)
	}
	alt = func(a *Alt) bool {
		for _, cc := range a.Concats {
			ok := true
			for _, r := range cc.Reps {
				if r.Max != Inf && r.Max < r.Min || r.Min > 0 && !elem(r.Elem) {
					ok = false
				}
			}
			if ok {
				return true
			}
		}
		return false
	}
	for ch := true; ch; {
		ch = false
		for n, r := range c.rules {
			if r != nil && !p[n] && alt(r.Alt) {
				p[n] = true
				ch = true
			}
		}
	}
	return p
}

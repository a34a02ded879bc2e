package ref

import (
	"sort"
	"strconv"
	"unicode/utf8"
)

// NFA is a finite automaton over characters, built from a non-recursive rule
// independently of the library. It decides languages exactly: membership,
// viable prefixes, follow octets and equivalence with another automaton.
type NFA struct {
	eps  [][]int
	tr   [][]NEdge
	s, f int
	live []bool

	mark []int // closure scratch
	gen  int
	work int // epsilon edges looked at
}

type NEdge struct {
	Lo, Hi rune
	To     int
}

type nfaTooBig struct{}

// BuildNFA returns nil when the rule is recursive, or needs more than limit
// states. Undefined rules, prose and impossible numerals match nothing.
func BuildNFA(g *Grammar, root string, limit int) (n *NFA) {
	if g.ContainsCycle(root) {
		return nil
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(nfaTooBig); !ok {
				panic(r)
			}
			n = nil
		}
	}()
	b := &nfaBuilder{n: &NFA{}, g: g, limit: limit}
	b.n.s, b.n.f = b.rule(root)
	b.n.Close()
	return b.n
}

// NewNFA is an empty automaton to be filled by the caller.
func NewNFA() *NFA { n := &NFA{}; n.s = n.Add(); n.f = n.Add(); return n }

func (n *NFA) Add() int {
	n.eps = append(n.eps, nil)
	n.tr = append(n.tr, nil)
	return len(n.eps) - 1
}
func (n *NFA) Eps(a, b int) { n.eps[a] = append(n.eps[a], b) }
func (n *NFA) Edge(a int, lo, hi rune, b int) {
	if hi > utf8.MaxRune {
		hi = utf8.MaxRune
	}
	if lo < 0xD800 && hi > 0xDFFF {
		n.Edge(a, lo, 0xD7FF, b)
		n.Edge(a, 0xE000, hi, b)
		return
	}
	if lo >= 0xD800 && lo <= 0xDFFF {
		lo = 0xE000
	}
	if hi >= 0xD800 && hi <= 0xDFFF {
		hi = 0xD7FF
	}
	if lo <= hi {
		n.tr[a] = append(n.tr[a], NEdge{lo, hi, b})
	}
}
func (n *NFA) Start() int { return n.s }
func (n *NFA) Final() int { return n.f }

// Term adds a terminal between fresh states and returns them.
func (n *NFA) Term(e *Elem) (int, int) {
	s := n.Add()
	f := n.Add()
	if TermDead(e) {
		return s, f
	}
	cur := s
	step := func(lo, hi rune, more ...rune) {
		nx := n.Add()
		n.Edge(cur, lo, hi, nx)
		for _, m := range more {
			n.Edge(cur, m, m, nx)
		}
		cur = nx
	}
	switch e.Kind {
	case KStr:
		for _, r := range e.Str {
			l := r | 32
			if !e.Sens && l >= 'a' && l <= 'z' && r < 128 {
				step(l, l, l^32)
			} else {
				step(r, r)
			}
		}
	case KNum:
		if e.Range {
			step(RuneValue(e.Vals[0], e.Base), RuneValue(e.Vals[1], e.Base))
		} else {
			for _, v := range e.Vals {
				r := RuneValue(v, e.Base)
				step(r, r)
			}
		}
	default:
		return s, f
	}
	n.Eps(cur, f)
	return s, f
}

// Close computes which states can still reach the final one.
func (n *NFA) Close() {
	rev := make([][]int, len(n.eps))
	for a := range n.eps {
		for _, b := range n.eps[a] {
			rev[b] = append(rev[b], a)
		}
		for _, e := range n.tr[a] {
			rev[e.To] = append(rev[e.To], a)
		}
	}
	n.live = make([]bool, len(n.eps))
	n.live[n.f] = true
	st := []int{n.f}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		for _, p := range rev[x] {
			if !n.live[p] {
				n.live[p] = true
				st = append(st, p)
			}
		}
	}
}

type nfaBuilder struct {
	n     *NFA
	g     *Grammar
	limit int
}

func (b *nfaBuilder) add() int {
	if len(b.n.eps) >= b.limit {
		panic(nfaTooBig{})
	}
	return b.n.Add()
}

func (b *nfaBuilder) rule(name string) (int, int) {
	r := b.g.Find(name)
	if r == nil {
		return b.add(), b.add()
	}
	return b.alt(r.Alt)
}

func (b *nfaBuilder) alt(a *Alt) (int, int) {
	s, f := b.add(), b.add()
	for _, c := range a.Concats {
		cur := b.add()
		b.n.Eps(s, cur)
		for _, rp := range c.Reps {
			x, y := b.rep(rp)
			b.n.Eps(cur, x)
			cur = y
		}
		b.n.Eps(cur, f)
	}
	return s, f
}

func (b *nfaBuilder) rep(rp *Rep) (int, int) {
	s, f := b.add(), b.add()
	if rp.Max != Inf && rp.Max < rp.Min {
		return s, f
	}
	cur := s
	for i := 0; i < rp.Min; i++ {
		x, y := b.elem(rp.Elem)
		b.n.Eps(cur, x)
		cur = y
		b.add()
	}
	if rp.Max == Inf {
		x, y := b.elem(rp.Elem)
		l := b.add()
		b.n.Eps(cur, l)
		b.n.Eps(l, x)
		b.n.Eps(y, l)
		b.n.Eps(l, f)
		return s, f
	}
	b.n.Eps(cur, f)
	for i := rp.Min; i < rp.Max; i++ {
		x, y := b.elem(rp.Elem)
		b.n.Eps(cur, x)
		b.n.Eps(y, f)
		cur = y
		b.add()
	}
	return s, f
}

func (b *nfaBuilder) elem(e *Elem) (int, int) {
	switch e.Kind {
	case KRule:
		return b.rule(e.Name)
	case KGroup:
		return b.alt(e.Alt)
	case KOption:
		s, f := b.alt(e.Alt)
		b.n.Eps(s, f)
		return s, f
	}
	s, f := b.n.Term(e)
	if len(b.n.eps) > b.limit {
		panic(nfaTooBig{})
	}
	return s, f
}

// Set is a sorted set of live states, epsilon-closed.
type Set []int

func (s Set) key() string {
	b := make([]byte, 0, 4*len(s))
	for _, x := range s {
		b = strconv.AppendInt(b, int64(x), 36)
		b = append(b, ',')
	}
	return string(b)
}

func (n *NFA) closure(seed []int) Set {
	if len(n.mark) != len(n.eps) {
		n.mark = make([]int, len(n.eps))
	}
	n.gen++
	var st []int
	out := Set{}
	push := func(x int) {
		if n.live[x] && n.mark[x] != n.gen {
			n.mark[x] = n.gen
			st = append(st, x)
			if len(n.tr[x]) > 0 || x == n.f {
				out = append(out, x)
			}
		}
	}
	for _, x := range seed {
		push(x)
	}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		n.work += len(n.eps[x]) + 1
		for _, y := range n.eps[x] {
			push(y)
		}
	}
	sort.Ints(out)
	return out
}

// Spent is the work done so far.
func (n *NFA) Spent() int { return n.work }

func (n *NFA) Init() Set { return n.closure([]int{n.s}) }

func (n *NFA) Step(s Set, r rune) Set {
	var to []int
	for _, x := range s {
		for _, e := range n.tr[x] {
			if e.Lo <= r && r <= e.Hi {
				to = append(to, e.To)
			}
		}
	}
	return n.closure(to)
}

func (n *NFA) Acc(s Set) bool {
	for _, x := range s {
		if x == n.f {
			return true
		}
	}
	return false
}

// Cuts returns the values at which the automaton may behave differently from
// the one before.
func (n *NFA) Cuts(s Set, add func(rune)) {
	for _, x := range s {
		for _, e := range n.tr[x] {
			add(e.Lo)
			add(e.Hi + 1)
		}
	}
}

// Match runs the automaton.
func (n *NFA) Match(in []byte) bool {
	s := n.Init()
	for i := 0; i < len(in); {
		r, w := utf8.DecodeRune(in[i:])
		if r == utf8.RuneError && w == 1 {
			return false
		}
		s = n.Step(s, r)
		i += w
	}
	return n.Acc(s)
}

// Automaton is what Equal compares.
type Automaton interface {
	Init() Set
	Step(Set, rune) Set
	Acc(Set) bool
	Cuts(Set, func(rune))
}

// equalWork bounds the work of one equivalence question.
const equalWork = 20_000_000

// Equal explores the product of two automata breadth first: done is false when
// the budget of product states ran out before the answer was known; cex is a
// shortest string on which they differ.
func Equal(a, b Automaton, budget int) (eq, done bool, cex []rune, states int) {
	type node struct {
		x, y Set
		prev int
		r    rune
	}
	seen := map[string]bool{}
	var q []node
	push := func(x, y Set, prev int, r rune) {
		k := x.key() + "|" + y.key()
		if !seen[k] {
			seen[k] = true
			q = append(q, node{x, y, prev, r})
		}
	}
	spent := func() (t int) {
		for _, z := range []Automaton{a, b} {
			if c, ok := z.(interface{ Spent() int }); ok {
				t += c.Spent()
			}
		}
		return
	}
	w0, steps := spent(), 0
	push(a.Init(), b.Init(), -1, 0)
	for i := 0; i < len(q); i++ {
		nd := q[i]
		if a.Acc(nd.x) != b.Acc(nd.y) {
			for j := i; q[j].prev >= 0; j = q[j].prev {
				cex = append(cex, q[j].r)
			}
			for l, r := 0, len(cex)-1; l < r; l, r = l+1, r-1 {
				cex[l], cex[r] = cex[r], cex[l]
			}
			return false, true, cex, i + 1
		}
		if i >= budget || steps > equalWork || spent()-w0 > equalWork {
			return false, false, nil, i
		}
		cm := map[rune]bool{}
		var cuts []rune
		add := func(r rune) {
			if r >= 0 && r <= utf8.MaxRune && !cm[r] {
				cm[r] = true
				cuts = append(cuts, r)
			}
		}
		add(0)
		add(0xE000)
		a.Cuts(nd.x, add)
		b.Cuts(nd.y, add)
		sort.Slice(cuts, func(i, j int) bool { return cuts[i] < cuts[j] })
		for _, r := range cuts {
			if !ValidScalar(r) {
				continue
			}
			steps += len(nd.x) + len(nd.y) + 1
			x, y := a.Step(nd.x, r), b.Step(nd.y, r)
			if len(x) == 0 && len(y) == 0 {
				continue
			}
			push(x, y, i, r)
		}
	}
	return true, true, nil, len(q)
}

// Follow is the exact set of octets that can come after prefix in some word,
// and whether prefix is a word.
func (n *NFA) Follow(prefix []byte) (next []byte, accepts bool) {
	s := n.Init()
	i := 0
	for i < len(prefix) {
		if !utf8.FullRune(prefix[i:]) {
			break
		}
		r, w := utf8.DecodeRune(prefix[i:])
		if r == utf8.RuneError && w == 1 {
			return nil, false
		}
		s = n.Step(s, r)
		i += w
	}
	part := prefix[i:]
	for b := 0; b < 256; b++ {
		lo, hi, ok := leadRange(append(append([]byte{}, part...), byte(b)))
		if !ok {
			continue
		}
		hit := false
		for _, x := range s {
			for _, e := range n.tr[x] {
				if n.live[e.To] && max(e.Lo, lo) <= min(e.Hi, hi) {
					hit = true
				}
			}
		}
		if hit {
			next = append(next, byte(b))
		}
	}
	return next, len(part) == 0 && n.Acc(s)
}

// leadRange returns the characters whose encoding starts with p.
func leadRange(p []byte) (lo, hi rune, ok bool) {
	c := p[0]
	var size int
	var v rune
	var a, z rune
	switch {
	case c < 0x80:
		size, v, a, z = 1, rune(c), 0, 0x7F
	case c >= 0xC2 && c <= 0xDF:
		size, v, a, z = 2, rune(c&0x1F), 0x80, 0x7FF
	case c >= 0xE0 && c <= 0xEF:
		size, v, a, z = 3, rune(c&0x0F), 0x800, 0xFFFF
	case c >= 0xF0 && c <= 0xF4:
		size, v, a, z = 4, rune(c&0x07), 0x10000, utf8.MaxRune
	default:
		return 0, 0, false
	}
	if len(p) > size {
		return 0, 0, false
	}
	for _, c := range p[1:] {
		if c&0xC0 != 0x80 {
			return 0, 0, false
		}
		v = v<<6 | rune(c&0x3F)
	}
	sh := 6 * (size - len(p))
	lo, hi = v<<sh, (v+1)<<sh-1
	lo, hi = max(lo, a), min(hi, z)
	if lo >= 0xD800 && lo <= 0xDFFF {
		lo = 0xE000
	}
	if hi >= 0xD800 && hi <= 0xDFFF {
		hi = 0xD7FF
	}
	return lo, hi, lo <= hi
}

// Size is the number of states.
func (n *NFA) Size() int { return len(n.eps) }

// Splice adds the automaton of a (non-recursive) rule; -1 when too large.
func (n *NFA) Splice(g *Grammar, rule string, limit int) (s, f int) {
	sub := BuildNFA(g, rule, limit)
	if sub == nil {
		return -1, -1
	}
	off := len(n.eps)
	for i := range sub.eps {
		x := n.Add()
		for _, e := range sub.eps[i] {
			n.eps[x] = append(n.eps[x], e+off)
		}
		for _, e := range sub.tr[i] {
			n.tr[x] = append(n.tr[x], NEdge{e.Lo, e.Hi, e.To + off})
		}
	}
	return sub.s + off, sub.f + off
}

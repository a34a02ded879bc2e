// Package gen makes workloads: random grammars, directed hostile grammars and
// inputs for them.
package gen

import (
	"fmt"
	"math/rand/v2"
	"unicode/utf8"

	"verif/ref"
)

// Profile drives grammar generation.
type Profile struct {
	Rules   int  // number of rules
	Depth   int  // element nesting
	MaxAlts int  // alternatives per alternation
	MaxCat  int  // repetitions per concatenation
	DAG     bool // references only go forward (no recursion)
	Unicode bool
	Core    bool
	Counted bool // n, n*m repetitions with n,m > 1
	MaxRep  int  // largest bound
	Prose   bool
	Undef   bool
	BadRep  bool // min > max
	BadNum  bool // out of range, surrogates, reversed ranges
	Huge    bool // gigantic repetition bounds
	NoEmpty bool // no "" terminal
	Wide    bool // wider alphabet
	Punct   bool // punctuation, digits and letters of the whole printable range
	Classes bool // groups of single characters and small ranges
	Twins   bool // near copies of one element at several places
	Names   bool // odd rule names
	Amp     Amp  // one dimension out of proportion
}

// Amp is a dimension that is made large while the others stay small.
type Amp int

const (
	AmpNone Amp = iota
	AmpAlts
	AmpCat
	AmpStr
	AmpBound
	AmpSeries
	AmpRules
	AmpDepth
	nAmp
)

type g struct {
	rng *rand.Rand
	p   Profile
	gr  *ref.Grammar
	cur int

	lets string
}

// edges of the printable ranges and what other notations give a meaning to
const specials = " !#$%&'()*+,-./09:;<=>?@AZ[\\]^_`az{|}~"

func punctLetters(rng *rand.Rand) string {
	s := ""
	for n := 3 + rng.IntN(4); n > 0; n-- {
		if rng.IntN(3) == 0 {
			c := byte(0x20 + rng.IntN(95))
			if c == '"' {
				c = '!'
			}
			s += string(rune(c))
		} else {
			s += string(specials[rng.IntN(len(specials))])
		}
	}
	return s
}

func cloneAlt(a *ref.Alt) *ref.Alt {
	if a == nil {
		return nil
	}
	o := &ref.Alt{}
	for _, c := range a.Concats {
		oc := &ref.Concat{}
		for _, r := range c.Reps {
			oc.Reps = append(oc.Reps, &ref.Rep{Min: r.Min, Max: r.Max, Elem: cloneElem(r.Elem)})
		}
		o.Concats = append(o.Concats, oc)
	}
	return o
}

func cloneElem(e *ref.Elem) *ref.Elem {
	o := *e
	o.Vals = append([]string{}, e.Vals...)
	o.Alt = cloneAlt(e.Alt)
	return &o
}

// Twin copies a repetition of the grammar next to or in place of another one
// after changing a detail of it: the copies must not be taken for one another.
// With dag set, it never lands in a rule after the original's.
func Twin(rng *rand.Rand, gr *ref.Grammar, dag bool) {
	type site struct {
		r  *ref.Rep
		at int
	}
	var reps []site
	cur := 0
	var cats []*ref.Concat
	var alts []*ref.Alt
	var walk func(a *ref.Alt)
	walk = func(a *ref.Alt) {
		alts = append(alts, a)
		for _, c := range a.Concats {
			cats = append(cats, c)
			for _, r := range c.Reps {
				reps = append(reps, site{r, cur})
				if r.Elem.Alt != nil {
					walk(r.Elem.Alt)
				}
			}
		}
	}
	ncat, nalt := make([]int, len(gr.Rules)), make([]int, len(gr.Rules))
	for i, r := range gr.Rules {
		cur = i
		walk(r.Alt)
		ncat[i], nalt[i] = len(cats), len(alts)
	}
	if len(reps) == 0 || len(reps) > 25 {
		return
	}
	src := reps[rng.IntN(len(reps))]
	if rng.IntN(2) == 0 { // prefer composite elements
		for k := 0; k < 6 && src.r.Elem.Alt == nil; k++ {
			src = reps[rng.IntN(len(reps))]
		}
	}
	if dag {
		cats, alts = cats[:ncat[src.at]], alts[:nalt[src.at]]
	}
	cp := &ref.Rep{Min: src.r.Min, Max: src.r.Max, Elem: cloneElem(src.r.Elem)}
	vary(rng, src.r, cp)
	one := &ref.Concat{Reps: []*ref.Rep{cp}}
	switch rng.IntN(3) {
	case 0:
		c := cats[rng.IntN(len(cats))]
		i := rng.IntN(len(c.Reps) + 1)
		c.Reps = append(c.Reps[:i:i], append([]*ref.Rep{cp}, c.Reps[i:]...)...)
	case 1:
		a := alts[rng.IntN(len(alts))]
		if rng.IntN(2) == 0 {
			one.Reps = append(one.Reps, &ref.Rep{Min: 1, Max: 1, Elem: &ref.Elem{Kind: ref.KStr, Str: "z"}})
		}
		i := rng.IntN(len(a.Concats) + 1)
		a.Concats = append(a.Concats[:i:i], append([]*ref.Concat{one}, a.Concats[i:]...)...)
	default:
		a := gr.Rules[0].Alt
		a.Concats = append(a.Concats, one)
	}
}

func repsOf(rp *ref.Rep) []*ref.Rep {
	reps := []*ref.Rep{rp}
	if rp.Elem.Alt != nil {
		ref.WalkAlt(rp.Elem.Alt, func(r *ref.Rep) { reps = append(reps, r) })
	}
	return reps
}

func vary(rng *rand.Rand, src, rp *ref.Rep) {
	reps, orig := repsOf(rp), repsOf(src)
	if rng.IntN(3) == 0 { // two case-sensitive spellings
		var strs []int
		for i, r := range reps {
			if r.Elem.Kind == ref.KStr && r.Elem.Str != "" {
				strs = append(strs, i)
			}
		}
		if len(strs) > 0 {
			k := strs[rng.IntN(len(strs))]
			r := reps[k]
			b := []byte(r.Elem.Str)
			for i, c := range b {
				if c|32 >= 'a' && c|32 <= 'z' && (len(b) == 1 || rng.IntN(2) == 0) {
					b[i] ^= 32
				}
			}
			orig[k].Elem.Sens = true
			r.Elem.Str, r.Elem.Sens = string(b), true
			return
		}
	}
	for tries := 0; tries < 8; tries++ {
		r := reps[rng.IntN(len(reps))]
		e := r.Elem
		switch rng.IntN(8) {
		case 0, 1: // case of a string
			if e.Kind != ref.KStr {
				continue
			}
			b := []byte(e.Str)
			done := false
			for i, c := range b {
				if c|32 >= 'a' && c|32 <= 'z' && rng.IntN(2) == 0 {
					b[i] ^= 32
					done = true
				}
			}
			if !done {
				continue
			}
			e.Str = string(b)
			e.Sens = true
			return
		case 2: // sensitivity
			if e.Kind != ref.KStr {
				continue
			}
			e.Sens = !e.Sens
			return
		case 3: // bounds
			switch rng.IntN(4) {
			case 0:
				r.Min = r.Max
				if r.Max == ref.Inf {
					r.Min = 2
				}
			case 1:
				r.Max = ref.Inf
			case 2:
				if r.Max != ref.Inf {
					r.Max++
				} else {
					r.Max = r.Min + 1
				}
			default:
				if r.Min > 0 {
					r.Min--
				} else if r.Max > 0 || r.Max == ref.Inf {
					r.Min = 1
				}
			}
			return
		case 4: // group against option
			switch e.Kind {
			case ref.KGroup:
				e.Kind = ref.KOption
			case ref.KOption:
				e.Kind = ref.KGroup
			default:
				continue
			}
			return
		case 5: // one more or one fewer alternative, other order
			if e.Alt == nil {
				continue
			}
			cs := e.Alt.Concats
			if len(cs) > 1 && rng.IntN(2) == 0 {
				i := rng.IntN(len(cs))
				e.Alt.Concats = append(append([]*ref.Concat{}, cs[:i]...), cs[i+1:]...)
			} else {
				c := cs[rng.IntN(len(cs))]
				nr := append([]*ref.Rep{}, c.Reps...)
				rng.Shuffle(len(nr), func(i, j int) { nr[i], nr[j] = nr[j], nr[i] })
				c.Reps = nr
			}
			return
		case 6: // a series against a range, another base
			if e.Kind != ref.KNum {
				continue
			}
			if len(e.Vals) == 2 && ref.RuneValue(e.Vals[0], e.Base) <= ref.RuneValue(e.Vals[1], e.Base) {
				e.Range = !e.Range
				return
			}
			continue
		default: // the same after all
			return
		}
	}
}

func (x *g) class() *ref.Elem {
	a := &ref.Alt{}
	for n := 2 + x.rng.IntN(4); n > 0; n-- {
		c := rune(specials[x.rng.IntN(len(specials))])
		if x.rng.IntN(3) == 0 {
			c = rune(x.lets[x.rng.IntN(len(x.lets))])
		}
		e := &ref.Elem{Kind: ref.KStr, Str: string(c), Sens: x.rng.IntN(3) == 0}
		switch x.rng.IntN(4) {
		case 0:
			e = &ref.Elem{Kind: ref.KNum, Base: 'x', Vals: []string{fmt.Sprintf("%X", c)}}
		case 1:
			e = &ref.Elem{Kind: ref.KNum, Base: 'x', Range: true, Vals: []string{fmt.Sprintf("%X", c), fmt.Sprintf("%X", int(c)+x.rng.IntN(4))}}
		}
		a.Concats = append(a.Concats, &ref.Concat{Reps: []*ref.Rep{{Min: 1, Max: 1, Elem: e}}})
	}
	return &ref.Elem{Kind: ref.KGroup, Alt: a}
}

var names = []string{"s", "a", "B", "c-d", "Foo", "e1", "g", "h-2", "I", "j", "kk", "L", "m", "nn", "oo", "pp"}

// words other notations reserve, and names close to one another
var trickyNames = []string{"type", "func", "len", "nil", "string", "range", "map", "Parse", "input", "byte", "error", "init", "main", "a-b", "ab", "a-b-", "a--b", "a1", "a-1", "x", "x0", "x00", "x-0", "start", "end",
	"rule", "rulename", "grp", "opt", "rep", "alt", "alternation", "group", "flowchart", "graph", "subgraph", "classDef", "AlphaX", "digits", "crlf2", "LWS", "k", "kS", "Sk", "i", "Z", "Zz", "true", "false", "inf", "eps", "epsilon", "root", "s-0", "s0", "n", "fold", "set", "Valid", "Tree"}

func oddNames(rng *rand.Rand) []string {
	seen := map[string]bool{"undefd": true, "nope": true}
	var out []string
	for len(out) < len(names) {
		n := trickyNames[rng.IntN(len(trickyNames))]
		if rng.IntN(4) == 0 {
			const cs = "abcXYZ019-"
			n = string(cs[rng.IntN(6)])
			for k := rng.IntN(8) + rng.IntN(2)*rng.IntN(60); k > 0; k-- {
				n += string(cs[rng.IntN(len(cs))])
			}
		}
		l := ref.Lower(n)
		for _, c := range ref.CoreNames {
			if ref.Lower(c) == l {
				seen[l] = true
			}
		}
		if !seen[l] {
			seen[l] = true
			out = append(out, n)
		}
	}
	return out
}

// Random draws a grammar; its first rule is the natural root.
func Random(rng *rand.Rand, p Profile) *ref.Grammar {
	if p.Rules == 0 {
		p.Rules = 1 + rng.IntN(4)
	}
	if p.Rules > len(names) {
		p.Rules = len(names)
	}
	if p.MaxAlts == 0 {
		p.MaxAlts = 3
	}
	if p.MaxCat == 0 {
		p.MaxCat = 3
	}
	if p.MaxRep == 0 {
		p.MaxRep = 3
	}
	switch p.Amp {
	case AmpAlts:
		p.MaxAlts, p.Depth, p.Rules = 8+rng.IntN(14), min(p.Depth, 1), min(p.Rules, 3)
		p.Wide = true
	case AmpCat:
		p.MaxCat, p.Depth, p.Rules, p.MaxAlts = 6+rng.IntN(8), min(p.Depth, 1), min(p.Rules, 2), min(p.MaxAlts, 2)
		p.NoEmpty = true
	case AmpRules:
		p.Rules, p.MaxAlts, p.MaxCat, p.Depth = 9+rng.IntN(8), min(p.MaxAlts, 2), min(p.MaxCat, 2), min(p.Depth, 1)
	case AmpDepth:
		p.Depth, p.MaxAlts, p.MaxCat, p.Rules = 4+rng.IntN(3), min(p.MaxAlts, 2), min(p.MaxCat, 2), min(p.Rules, 2)
	}
	x := &g{rng: rng, p: p, gr: &ref.Grammar{}}
	ns := names
	if p.Names {
		ns = oddNames(rng)
	}
	for i := 0; i < p.Rules; i++ {
		x.gr.Rules = append(x.gr.Rules, &ref.Rule{Name: ns[i]})
	}
	if p.Punct {
		x.lets = punctLetters(rng)
	} else if p.Wide {
		x.lets = "abAB0-k"
	} else {
		x.lets = "ab"
	}
	for i := range x.gr.Rules {
		x.cur = i
		x.gr.Rules[i].Alt = x.alt(p.Depth)
	}
	if p.Twins {
		Twin(rng, x.gr, p.DAG)
	}
	return x.gr
}

// RandomProfile draws a varied profile for general grammars.
func RandomProfile(rng *rand.Rand) Profile {
	p := Profile{
		Rules:   1 + rng.IntN(4),
		Depth:   rng.IntN(3),
		MaxAlts: 1 + rng.IntN(3),
		MaxCat:  1 + rng.IntN(3),
		DAG:     rng.IntN(3) == 0,
		Unicode: rng.IntN(4) == 0,
		Core:    rng.IntN(6) == 0,
		Counted: rng.IntN(2) == 0,
		MaxRep:  2 + rng.IntN(4),
		NoEmpty: rng.IntN(3) != 0,
		Wide:    rng.IntN(4) == 0,
		Punct:   rng.IntN(6) == 0,
		Classes: rng.IntN(8) == 0,
		Twins:   rng.IntN(3) == 0,
		Names:   rng.IntN(4) == 0,
	}
	if rng.IntN(6) == 0 {
		p.Amp = 1 + Amp(rng.IntN(int(nAmp)-1))
	}
	return p
}

func (x *g) alt(d int) *ref.Alt {
	n := 1 + x.rng.IntN(x.p.MaxAlts)
	a := &ref.Alt{}
	for i := 0; i < n; i++ {
		a.Concats = append(a.Concats, x.concat(d))
	}
	return a
}

func (x *g) concat(d int) *ref.Concat {
	n := 1 + x.rng.IntN(x.p.MaxCat)
	c := &ref.Concat{}
	for i := 0; i < n; i++ {
		c.Reps = append(c.Reps, x.rep(d))
	}
	return c
}

var hugeBounds = []int{1000, 65537, 1 << 20, 1 << 31, 9999999999, 1<<62 + 3, 1 << 61, 1 << 62, 1<<63 - 1, 6148914691236517206}

func (x *g) rep(d int) *ref.Rep {
	r := &ref.Rep{Min: 1, Max: 1, Elem: x.elem(d)}
	switch x.rng.IntN(10) {
	case 0:
		r.Min, r.Max = 0, ref.Inf
	case 1:
		r.Min, r.Max = 1, ref.Inf
	case 2:
		r.Min, r.Max = 0, 1
	case 3, 4:
		if x.p.Amp == AmpBound && x.rng.IntN(3) == 0 && !mayBeEmpty(r.Elem) {
			n := []int{7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 255, 256, 257}[x.rng.IntN(21)]
			switch x.rng.IntN(4) {
			case 0:
				r.Min, r.Max = n, n
			case 1:
				r.Min, r.Max = n, ref.Inf
			case 2:
				r.Min, r.Max = x.rng.IntN(4), n
			default:
				r.Min, r.Max = n, n+x.rng.IntN(4)
			}
		} else if x.p.Counted {
			a, b := x.rng.IntN(x.p.MaxRep+1), x.rng.IntN(x.p.MaxRep+1)
			if a > b {
				a, b = b, a
			}
			r.Min, r.Max = a, b
			if x.rng.IntN(4) == 0 {
				r.Max = ref.Inf
			} else if x.rng.IntN(3) == 0 {
				r.Min = r.Max
			}
		}
	case 5:
		if x.p.BadRep && x.rng.IntN(3) == 0 {
			r.Min = 1 + x.rng.IntN(4)
			r.Max = x.rng.IntN(r.Min)
		}
	case 6:
		if x.p.Huge && x.rng.IntN(2) == 0 {
			h := hugeBounds[x.rng.IntN(len(hugeBounds))]
			switch x.rng.IntN(4) {
			case 0:
				r.Min, r.Max = h, ref.Inf
			case 1:
				r.Min, r.Max = h, h
			default:
				r.Min, r.Max = x.rng.IntN(3), h
			}
		}
	}
	return r
}

// mayBeEmpty is a cheap over-approximation: only terminals are known not to be.
func mayBeEmpty(e *ref.Elem) bool {
	return !(e.Kind == ref.KStr && e.Str != "" || e.Kind == ref.KNum)
}

func (x *g) elem(d int) *ref.Elem {
	k := x.rng.IntN(20)
	switch {
	case k < 7:
		if e := x.ruleRef(); e != nil {
			return e
		}
	case k < 10 && d > 0:
		return &ref.Elem{Kind: ref.KGroup, Alt: x.alt(d - 1)}
	case k < 12 && d > 0:
		return &ref.Elem{Kind: ref.KOption, Alt: x.alt(d - 1)}
	case k == 12 && x.p.Prose && x.rng.IntN(2) == 0:
		return &ref.Elem{Kind: ref.KProse, Str: x.prose()}
	case k == 13 && x.p.Undef && x.rng.IntN(2) == 0:
		return &ref.Elem{Kind: ref.KRule, Name: []string{"undefd", "nope"}[x.rng.IntN(2)]}
	case k >= 15 && k < 18 && x.p.Classes:
		return x.class()
	case k == 14 && x.p.Core:
		return &ref.Elem{Kind: ref.KRule, Name: ref.CoreNames[x.rng.IntN(len(ref.CoreNames))]}
	}
	return x.Term()
}

func (x *g) prose() string {
	if x.rng.IntN(2) == 0 {
		return []string{"", "a", "some prose", "x=/\";"}[x.rng.IntN(4)]
	}
	s := ""
	for n := x.rng.IntN(6); n > 0; n-- {
		c := byte(0x20 + x.rng.IntN(95))
		if x.rng.IntN(3) == 0 {
			c = " =?~"[x.rng.IntN(4)]
		}
		if c == '>' {
			c = '<'
		}
		s += string(rune(c))
	}
	return s
}

func (x *g) ruleRef() *ref.Elem {
	if x.p.DAG {
		if x.cur+1 >= len(x.gr.Rules) {
			return nil
		}
		i := x.cur + 1 + x.rng.IntN(len(x.gr.Rules)-x.cur-1)
		return &ref.Elem{Kind: ref.KRule, Name: x.spell(x.gr.Rules[i].Name)}
	}
	return &ref.Elem{Kind: ref.KRule, Name: x.spell(x.gr.Rules[x.rng.IntN(len(x.gr.Rules))].Name)}
}

func (x *g) spell(s string) string {
	if x.rng.IntN(6) != 0 {
		return s
	}
	b := []byte(s)
	for i, c := range b {
		if (c|32) >= 'a' && (c|32) <= 'z' && x.rng.IntN(2) == 0 {
			b[i] = c ^ 32
		}
	}
	return string(b)
}

var interesting = []rune{0, 1, 9, 0xA, 0xD, 0x20, 0x22, 0x2A, 0x2B, 0x2E, 0x30, 0x39, 0x41, 0x5A, 0x5B, 0x5C, 0x5D, 0x5E, 0x61, 0x7A, 0x7F,
	0x80, 0xE9, 0xFF, 0x100, 0x130, 0x131, 0x17F, 0x7FF, 0x800, 0x20AC, 0x212A, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0xFFFFF, 0x100000, 0x10FFFF}

func numStr(rng *rand.Rand, v int64, base byte) string {
	var s string
	switch base {
	case 'b':
		s = fmt.Sprintf("%b", v)
	case 'd':
		s = fmt.Sprintf("%d", v)
	default:
		if rng.IntN(2) == 0 {
			s = fmt.Sprintf("%x", v)
		} else {
			s = fmt.Sprintf("%X", v)
		}
	}
	if rng.IntN(10) == 0 {
		s = "0" + s
	}
	return s
}

func (x *g) Term() *ref.Elem {
	rng := x.rng
	base := "bdx"[rng.IntN(3)]
	num := func(rg bool, vs ...rune) *ref.Elem {
		e := &ref.Elem{Kind: ref.KNum, Base: base, Range: rg}
		for _, v := range vs {
			e.Vals = append(e.Vals, numStr(rng, int64(v), base))
		}
		return e
	}
	if x.p.BadNum && rng.IntN(4) == 0 {
		switch rng.IntN(6) {
		case 0: // reversed range
			if rng.IntN(2) == 0 {
				a := interesting[1+rng.IntN(len(interesting)-1)]
				return num(true, a, a-1)
			}
			return num(true, 'c', 'a')
		case 1: // surrogate
			switch rng.IntN(4) {
			case 0:
				return num(true, 0xD800, 0xDFFF)
			case 1: // one surrogate, as a range
				a := 0xD800 + rune(rng.IntN(0x800))
				return num(true, a, a)
			case 2:
				a := 0xD800 + rune(rng.IntN(0x700))
				return num(true, a, a+rune(rng.IntN(3)))
			}
			return num(true, 0xD7FF-rune(rng.IntN(2)), 0xDC00+rune(rng.IntN(0x2400)))
		case 2:
			return num(false, 'a', 0xD801)
		case 3: // above the ceiling
			return num(rng.IntN(2) == 0, 0x10FFFF, 0x110000+rune(rng.IntN(5)))
		case 4:
			e := num(true, 'a', 'b')
			e.Base = 'x'
			e.Vals[0], e.Vals[1] = "61", "FFFFFFFFFFFFFFFFFFFFFF"
			return e
		default:
			e := num(false, 'a')
			e.Base = 'd'
			e.Vals[0] = []string{"4294967393", "18446744073709551713", "99999999999999999999999999", "2147483745"}[rng.IntN(4)]
			return e
		}
	}
	if x.p.Unicode && rng.IntN(2) == 0 {
		a := interesting[rng.IntN(len(interesting))]
		switch rng.IntN(3) {
		case 0:
			return num(false, a)
		case 1:
			b := interesting[rng.IntN(len(interesting))]
			if a > b {
				a, b = b, a
			}
			return num(true, a, b)
		default:
			b := interesting[rng.IntN(len(interesting))]
			return num(false, a, b)
		}
	}
	lets := x.lets
	letter := func() rune { return rune(lets[rng.IntN(len(lets))]) }
	switch rng.IntN(10) {
	case 0:
		a := letter()
		b := a + rune(rng.IntN(3))
		return num(true, a, b)
	case 1:
		n := 1 + rng.IntN(3)
		if x.p.Amp == AmpSeries {
			n = 4 + rng.IntN(14)
		}
		vs := make([]rune, n)
		for i := range vs {
			vs[i] = letter()
		}
		return num(false, vs...)
	case 2:
		if !x.p.NoEmpty {
			return &ref.Elem{Kind: ref.KStr, Sens: rng.IntN(4) == 0}
		}
	}
	n := 1
	switch rng.IntN(5) {
	case 0:
		n = 2
	case 1:
		n = 1 + rng.IntN(3)
	}
	if x.p.Amp == AmpStr && rng.IntN(2) == 0 {
		n = []int{4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 64, 65}[rng.IntN(13)]
	}
	s := ""
	for i := 0; i < n; i++ {
		c := byte(letter())
		if c|32 >= 'a' && c|32 <= 'z' && rng.IntN(4) == 0 {
			c ^= 32
		}
		s += string(rune(c))
	}
	return &ref.Elem{Kind: ref.KStr, Str: s, Sens: rng.IntN(5) == 0}
}

// ------------------------------------------------------------------- inputs

// Alphabet collects characters worth trying: every terminal's characters,
// their case flips, range boundaries and neighbours.
func Alphabet(gr *ref.Grammar, root string) []rune {
	seen := map[rune]bool{}
	var out []rune
	add := func(r rune) {
		if ref.ValidScalar(r) && !seen[r] {
			seen[r] = true
			out = append(out, r)
		}
	}
	visit := func(rl *ref.Rule) {
		ref.WalkAlt(rl.Alt, func(rp *ref.Rep) {
			e := rp.Elem
			switch e.Kind {
			case ref.KStr:
				for _, r := range e.Str {
					add(r)
					if r|32 >= 'a' && r|32 <= 'z' {
						add(r ^ 32)
					}
				}
			case ref.KNum:
				for i, v := range e.Vals {
					r := ref.RuneValue(v, e.Base)
					add(r)
					if e.Range {
						if i == 0 {
							add(r - 1)
						} else {
							add(r + 1)
						}
					} else if r|32 >= 'a' && r|32 <= 'z' {
						add(r ^ 32)
					}
				}
			}
		})
	}
	done := map[string]bool{}
	var rec func(n string)
	rec = func(n string) {
		l := ref.Lower(n)
		if done[l] {
			return
		}
		done[l] = true
		r := gr.Find(n)
		if r == nil {
			return
		}
		visit(r)
		ref.WalkAlt(r.Alt, func(rp *ref.Rep) {
			if rp.Elem.Kind == ref.KRule {
				rec(rp.Elem.Name)
			}
		})
	}
	rec(root)
	if len(out) == 0 {
		out = append(out, 'a')
	}
	return out
}

// light tells grammars whose parsing is cheap on long inputs: recursion, if
// any, is linear, and few repetitions leave a choice.
func light(gr *ref.Grammar, root string) bool {
	reach := gr.Reach(root)
	reach[ref.Lower(root)] = true
	open := 0
	ok := true
	for n := range reach {
		r := gr.Find(n)
		if r == nil {
			continue
		}
		cyc := gr.Reach(n)[ref.Lower(n)]
		var cats func(a *ref.Alt, rep bool)
		cats = func(a *ref.Alt, rep bool) {
			for _, c := range a.Concats {
				self := 0
				for _, rp := range c.Reps {
					many := rp.Max != 1
					if many && rp.Min != rp.Max {
						open++
					}
					if rp.Elem.Kind == ref.KRule && cyc && gr.Reach(rp.Elem.Name)[ref.Lower(n)] {
						self++
						if many || rep {
							self++
						}
					}
					if rp.Elem.Alt != nil {
						if cyc {
							open++
						}
						cats(rp.Elem.Alt, rep || many)
					}
				}
				if self > 1 {
					ok = false
				}
			}
		}
		cats(r.Alt, false)
	}
	return ok && open <= 2
}

// Inputs makes up to n inputs for a rule: short strings over the alphabet,
// sampled words and mutations of them.
func Inputs(rng *rand.Rand, gr *ref.Grammar, root string, n, maxLen int) [][]byte {
	al := Alphabet(gr, root)
	rng.Shuffle(len(al), func(i, j int) { al[i], al[j] = al[j], al[i] })
	seen := map[string]bool{}
	var out [][]byte
	// words of amplified grammars are long: a few of them are let through
	long := 6
	longMax := 2 * maxLen
	if light(gr, root) {
		longMax = 20 * maxLen
	}
	add := func(b []byte) {
		if len(b) > maxLen {
			if long == 0 || len(b) > longMax {
				return
			}
			if _, done, _ := ref.MemberWithin(gr, root, b, 20_000_000); !done {
				return // the oracles could not afford it
			}
			long--
		}
		if len(out) >= n || seen[string(b)] {
			return
		}
		seen[string(b)] = true
		out = append(out, append([]byte{}, b...))
	}
	add(nil)
	s := ref.NewSampler(gr, root, rng)
	var words [][]byte
	for t := 0; t < n && len(words) < n/3+1; t++ {
		l := 1 + rng.IntN(maxLen)
		if t < 2 && rng.IntN(6) == 0 {
			l = longMax/2 + rng.IntN(longMax/2)
		}
		w, ok := s.Word(root, l)
		if !ok {
			break
		}
		words = append(words, w)
		add(w)
	}
	// words of grammars that differ by one mistake
	for t := 0; t < n/5+1; t++ {
		nb := Neighbour(rng, gr, root)
		if nb == nil {
			break
		}
		if w, ok := ref.NewSampler(nb, root, rng).Word(root, 1+rng.IntN(maxLen)); ok {
			add(w)
			if t < n/10 {
				words = append(words, w)
			}
		}
	}
	// exhaustive short strings over a few letters
	k := min(len(al), 3)
	lvl := [][]byte{nil}
	for l := 0; l < 8 && len(out) < n*2/3; l++ {
		var nx [][]byte
		for _, w := range lvl {
			for _, r := range al[:k] {
				v := utf8.AppendRune(append([]byte{}, w...), r)
				nx = append(nx, v)
				if len(out) < n*2/3 {
					add(v)
				}
			}
		}
		lvl = nx
		if len(lvl) > 200 {
			break
		}
	}
	for t := 0; t < 3*n && len(out) < n; t++ {
		if len(words) > 0 && rng.IntN(4) != 0 {
			add(Mutate(rng, words[rng.IntN(len(words))], al))
		} else {
			var w []byte
			for l := rng.IntN(maxLen + 1); len(w) < l; {
				w = utf8.AppendRune(w, al[rng.IntN(len(al))])
			}
			add(w)
		}
	}
	return out
}

// Mutate perturbs a word.
func Mutate(rng *rand.Rand, w []byte, al []rune) []byte {
	w = append([]byte{}, w...)
	for k := 1 + rng.IntN(2); k > 0; k-- {
		pos := 0
		if len(w) > 0 {
			pos = rng.IntN(len(w) + 1)
		}
		switch rng.IntN(8) {
		case 0: // delete
			if pos < len(w) {
				w = append(w[:pos], w[pos+1:]...)
			}
		case 1, 2: // insert
			ins := utf8.AppendRune(nil, al[rng.IntN(len(al))])
			w = append(w[:pos], append(ins, w[pos:]...)...)
		case 3: // replace
			if pos < len(w) {
				ins := utf8.AppendRune(nil, al[rng.IntN(len(al))])
				w = append(w[:pos], append(ins, w[pos+1:]...)...)
			}
		case 4: // duplicate a slice
			if len(w) > 0 {
				a := rng.IntN(len(w))
				b := a + 1 + rng.IntN(len(w)-a)
				d := append([]byte{}, w[a:b]...)
				w = append(w[:b], append(d, w[b:]...)...)
			}
		case 5: // truncate
			w = w[:pos]
		case 6: // case flip
			if pos < len(w) && (w[pos]|32) >= 'a' && (w[pos]|32) <= 'z' {
				w[pos] ^= 32
			}
		case 7: // raw byte
			b := []byte{0x80, 0xC3, 0xE2, 0xF0, 0xFF, 0xED, 0, 0x7F}[rng.IntN(8)]
			w = append(w[:pos], append([]byte{b}, w[pos:]...)...)
		}
	}
	return w
}

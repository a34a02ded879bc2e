package ref

import (
	"fmt"
	"math"
	"math/big"
)

// Def is one textual definition of a rule ("=" or "=/").
type Def struct {
	Name string
	Incr bool
	Alt  *Alt
}

type SyntaxError struct{ Pos int }

func (e *SyntaxError) Error() string { return fmt.Sprintf("not ABNF near offset %d", e.Pos) }

type tp struct {
	s   []byte
	far int
}

// ParseText parses an ABNF rulelist by recursive descent. It accepts exactly
// RFC 5234 section 4 with RFC 7405 and errata 2968, 3076.
func ParseText(s []byte) ([]Def, error) {
	p := &tp{s: s}
	var defs []Def
	i := 0
	items := 0
	for i < len(s) {
		if isAlpha(s[i]) {
			d, j, ok := p.rule(i)
			if !ok {
				return nil, &SyntaxError{p.far}
			}
			defs = append(defs, d)
			i = j
		} else {
			j := i
			for j < len(s) && isWSP(s[j]) {
				j++
			}
			k, ok := p.cnl(j)
			if !ok {
				return nil, &SyntaxError{p.far}
			}
			i = k
		}
		items++
	}
	if items == 0 {
		return nil, &SyntaxError{0}
	}
	return defs, nil
}

func isAlpha(b byte) bool { return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' }
func isDigit(b byte) bool { return b >= '0' && b <= '9' }
func isWSP(b byte) bool   { return b == ' ' || b == '\t' }

func (p *tp) at(i int) byte {
	if i > p.far {
		p.far = i
	}
	if i < len(p.s) {
		return p.s[i]
	}
	return 0 // NUL never appears in ABNF text
}

func (p *tp) crlf(i int) (int, bool) {
	if p.at(i) == '\r' && p.at(i+1) == '\n' {
		return i + 2, true
	}
	return i, false
}

func (p *tp) cnl(i int) (int, bool) {
	if p.at(i) == ';' {
		i++
		for i < len(p.s) && (isWSP(p.s[i]) || p.s[i] >= 0x21 && p.s[i] <= 0x7e) {
			i++
		}
		return p.crlf(i)
	}
	return p.crlf(i)
}

// cwsps consumes *c-wsp greedily and reports how many were consumed.
func (p *tp) cwsps(i int) (int, int) {
	n := 0
	for {
		if isWSP(p.at(i)) {
			i++
			n++
			continue
		}
		if j, ok := p.cnl(i); ok && isWSP(p.at(j)) {
			i = j + 1
			n++
			continue
		}
		return i, n
	}
}

func (p *tp) name(i int) (int, bool) {
	if !isAlpha(p.at(i)) {
		return i, false
	}
	i++
	for i < len(p.s) && (isAlpha(p.s[i]) || isDigit(p.s[i]) || p.s[i] == '-') {
		i++
	}
	return i, true
}

func (p *tp) rule(i int) (Def, int, bool) {
	j, ok := p.name(i)
	if !ok {
		return Def{}, i, false
	}
	d := Def{Name: string(p.s[i:j])}
	j, _ = p.cwsps(j)
	if p.at(j) != '=' {
		return d, j, false
	}
	j++
	if p.at(j) == '/' {
		d.Incr = true
		j++
	}
	j, _ = p.cwsps(j)
	alt, j, ok := p.alternation(j)
	if !ok {
		return d, j, false
	}
	d.Alt = alt
	for isWSP(p.at(j)) {
		j++
	}
	j, ok = p.cnl(j)
	return d, j, ok
}

func (p *tp) alternation(i int) (*Alt, int, bool) {
	c, i, ok := p.concatenation(i)
	if !ok {
		return nil, i, false
	}
	a := &Alt{Concats: []*Concat{c}}
	for {
		j, _ := p.cwsps(i)
		if p.at(j) != '/' {
			return a, i, true
		}
		j, _ = p.cwsps(j + 1)
		c, j, ok = p.concatenation(j)
		if !ok {
			return nil, j, false
		}
		a.Concats = append(a.Concats, c)
		i = j
	}
}

func repStart(b byte) bool {
	return isDigit(b) || isAlpha(b) || b == '*' || b == '(' || b == '[' || b == '"' || b == '%' || b == '<'
}

func (p *tp) concatenation(i int) (*Concat, int, bool) {
	r, i, ok := p.repetition(i)
	if !ok {
		return nil, i, false
	}
	c := &Concat{Reps: []*Rep{r}}
	for {
		j, n := p.cwsps(i)
		if n == 0 || !repStart(p.at(j)) {
			return c, i, true
		}
		r, j, ok = p.repetition(j)
		if !ok {
			return nil, j, false
		}
		c.Reps = append(c.Reps, r)
		i = j
	}
}

// Bound converts a repeat bound; values that do not fit an int saturate.
func Bound(digits string) int {
	v, _ := new(big.Int).SetString(digits, 10)
	if v.IsInt64() {
		return int(v.Int64())
	}
	return math.MaxInt64
}

func (p *tp) repetition(i int) (*Rep, int, bool) {
	r := &Rep{Min: 1, Max: 1}
	j := i
	for isDigit(p.at(j)) {
		j++
	}
	if p.at(j) == '*' {
		r.Min, r.Max = 0, Inf
		if j > i {
			r.Min = Bound(string(p.s[i:j]))
		}
		k := j + 1
		for isDigit(p.at(k)) {
			k++
		}
		if k > j+1 {
			r.Max = Bound(string(p.s[j+1 : k]))
		}
		j = k
	} else if j > i {
		r.Min = Bound(string(p.s[i:j]))
		r.Max = r.Min
	}
	e, j, ok := p.element(j)
	r.Elem = e
	return r, j, ok
}

func (p *tp) element(i int) (*Elem, int, bool) {
	c := p.at(i)
	switch {
	case isAlpha(c):
		j, _ := p.name(i)
		return &Elem{Kind: KRule, Name: string(p.s[i:j])}, j, true
	case c == '(' || c == '[':
		closer, kind := byte(')'), KGroup
		if c == '[' {
			closer, kind = ']', KOption
		}
		j, _ := p.cwsps(i + 1)
		a, j, ok := p.alternation(j)
		if !ok {
			return nil, j, false
		}
		j, _ = p.cwsps(j)
		if p.at(j) != closer {
			return nil, j, false
		}
		return &Elem{Kind: kind, Alt: a}, j + 1, true
	case c == '"':
		return p.quoted(i, false)
	case c == '<':
		j := i + 1
		for j < len(p.s) && p.s[j] >= 0x20 && p.s[j] <= 0x7e && p.s[j] != '>' {
			j++
		}
		if p.at(j) != '>' {
			return nil, j, false
		}
		return &Elem{Kind: KProse, Str: string(p.s[i+1 : j])}, j + 1, true
	case c == '%':
		switch k := p.at(i + 1); k {
		case 's', 'S':
			return p.quoted(i+2, true)
		case 'i', 'I':
			return p.quoted(i+2, false)
		case 'b', 'B', 'd', 'D', 'x', 'X':
			return p.num(i+2, k|0x20)
		}
		return nil, i + 1, false
	}
	return nil, i, false
}

func (p *tp) quoted(i int, sens bool) (*Elem, int, bool) {
	if p.at(i) != '"' {
		return nil, i, false
	}
	j := i + 1
	for j < len(p.s) && p.s[j] >= 0x20 && p.s[j] <= 0x7e && p.s[j] != '"' {
		j++
	}
	if p.at(j) != '"' {
		return nil, j, false
	}
	return &Elem{Kind: KStr, Str: string(p.s[i+1 : j]), Sens: sens}, j + 1, true
}

func isDig(b, base byte) bool {
	switch base {
	case 'b':
		return b == '0' || b == '1'
	case 'd':
		return isDigit(b)
	}
	return isDigit(b) || b >= 'a' && b <= 'f' || b >= 'A' && b <= 'F'
}

func (p *tp) num(i int, base byte) (*Elem, int, bool) {
	digs := func(i int) (string, int, bool) {
		j := i
		for isDig(p.at(j), base) && j < len(p.s) {
			j++
		}
		return string(p.s[min(i, len(p.s)):min(j, len(p.s))]), j, j > i
	}
	e := &Elem{Kind: KNum, Base: base}
	v, i, ok := digs(i)
	if !ok {
		return nil, i, false
	}
	e.Vals = []string{v}
	if p.at(i) == '-' {
		v, i, ok = digs(i + 1)
		if !ok {
			return nil, i, false
		}
		e.Range = true
		e.Vals = append(e.Vals, v)
		return e, i, true
	}
	for p.at(i) == '.' {
		v, i, ok = digs(i + 1)
		if !ok {
			return nil, i, false
		}
		e.Vals = append(e.Vals, v)
	}
	return e, i, true
}

// SemError classifies why definitions do not make a grammar.
type SemError struct {
	Kind string // "core", "dup", "noincr", "undef", "rep", "num"
	Name string
}

func (e *SemError) Error() string { return e.Kind + ": " + e.Name }

// Build applies the definition rules (duplicates, core rules, increments).
// All applicable errors are those of the first offending definition.
func Build(defs []Def, redefineCore bool) (*Grammar, *SemError) {
	g := &Grammar{}
	for _, d := range defs {
		if CoreRule(d.Name) != nil && !redefineCore {
			return nil, &SemError{"core", d.Name}
		}
		prev := g.FindUser(d.Name)
		if !d.Incr {
			if prev != nil {
				return nil, &SemError{"dup", d.Name}
			}
			g.Rules = append(g.Rules, &Rule{Name: d.Name, Alt: d.Alt})
			continue
		}
		if prev == nil {
			core := CoreRule(d.Name)
			if core == nil {
				return nil, &SemError{"noincr", d.Name}
			}
			prev = &Rule{Name: core.Name, Alt: core.Alt} // extend a core rule
			g.Rules = append(g.Rules, prev)
		}
		prev.Alt = &Alt{Concats: append(append([]*Concat{}, prev.Alt.Concats...), d.Alt.Concats...)}
	}
	return g, nil
}

// SemKinds returns the set of semantic-validation failures present.
func (g *Grammar) SemKinds() map[string]bool {
	out := map[string]bool{}
	for _, r := range g.Rules {
		WalkAlt(r.Alt, func(rp *Rep) {
			if rp.Max != Inf && rp.Min > rp.Max {
				out["rep"] = true
			}
			switch rp.Elem.Kind {
			case KRule:
				if g.Find(rp.Elem.Name) == nil {
					out["undef"] = true
				}
			case KNum:
				for _, v := range rp.Elem.Vals {
					if NumValue(v, rp.Elem.Base).Cmp(big.NewInt(MaxRune)) > 0 {
						out["num"] = true
					}
				}
			}
		})
	}
	return out
}

// WalkAlt visits every repetition of an alternation, depth first, in order.
func WalkAlt(a *Alt, f func(*Rep)) {
	for _, c := range a.Concats {
		for _, r := range c.Reps {
			f(r)
			if r.Elem.Alt != nil {
				WalkAlt(r.Elem.Alt, f)
			}
		}
	}
}

// MustGrammar parses text into a grammar (no core redefinition check).
func MustGrammar(text string) *Grammar {
	d, err := ParseText([]byte(text))
	if err != nil {
		panic(err.Error() + " in " + text)
	}
	g, e := Build(d, true)
	if e != nil {
		panic(e.Error())
	}
	return g
}

// GoodDigits reports whether s is a non-empty numeral of the base.
func GoodDigits(s string, base byte) bool {
	for i := 0; i < len(s); i++ {
		if !isDig(s[i], base) {
			return false
		}
	}
	return len(s) > 0
}

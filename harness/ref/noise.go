package ref

import (
	"fmt"
	"math/rand/v2"
	"strings"
)

// Noise renders definitions with random but meaningless formatting variation.
type Noise struct {
	Rng   *rand.Rand
	Level int // 0: canonical spacing, 1: mild, 2: wild
}

func (n *Noise) p(k int) bool { return n.Level > 0 && n.Rng.IntN(k) == 0 }

func (n *Noise) comment() string {
	const cs = " \tabcXYZ019!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~="
	var b strings.Builder
	b.WriteByte(';')
	switch n.Rng.IntN(6) {
	case 0:
		b.WriteString(" =/ x")
	case 1:
		b.WriteString("\" unterminated <")
	case 2:
		b.WriteString(" a = b / c")
	case 3:
	default:
		for k := n.Rng.IntN(12); k > 0; k-- {
			b.WriteByte(cs[n.Rng.IntN(len(cs))])
		}
	}
	return b.String()
}

func (n *Noise) cnl() string {
	if n.p(3) {
		return n.comment() + "\r\n"
	}
	return "\r\n"
}

func (n *Noise) wsp() string {
	if n.Rng.IntN(3) == 0 {
		return "\t"
	}
	return " "
}

func (n *Noise) cwsp1() string {
	if n.Level == 0 {
		return " "
	}
	if n.Level == 2 && n.Rng.IntN(5) == 0 {
		return n.cnl() + n.wsp()
	}
	return n.wsp()
}

// cwsps renders *c-wsp with at least lo items.
func (n *Noise) cwsps(lo int) string {
	k := lo
	if n.Level == 0 {
		return strings.Repeat(" ", lo)
	}
	switch n.Rng.IntN(5) {
	case 0:
		k++
	case 1:
		if n.Level == 2 {
			k += n.Rng.IntN(4)
		}
	}
	s := ""
	for ; k > 0; k-- {
		s += n.cwsp1()
	}
	return s
}

func (n *Noise) name(s string) string {
	if !n.p(3) {
		return s
	}
	b := []byte(s)
	for i, c := range b {
		if isAlpha(c) && n.Rng.IntN(2) == 0 {
			b[i] = c ^ 32
		}
	}
	return string(b)
}

func (n *Noise) num(v int) string {
	s := fmt.Sprint(v)
	if n.p(6) {
		s = strings.Repeat("0", 1+n.Rng.IntN(3)) + s
	}
	return s
}

func (n *Noise) repPrefix(r *Rep) string {
	switch {
	case r.Max == Inf:
		if r.Min == 0 && !n.p(4) {
			return "*"
		}
		return n.num(r.Min) + "*"
	case r.Min == 1 && r.Max == 1:
		if n.p(8) {
			return []string{"1", "1*1", "01", "01*1"}[n.Rng.IntN(4)]
		}
		return ""
	case r.Min == r.Max:
		if !n.p(4) {
			return n.num(r.Min)
		}
	}
	if r.Min == 0 && !n.p(3) {
		return "*" + n.num(r.Max)
	}
	return n.num(r.Min) + "*" + n.num(r.Max)
}

func (n *Noise) elem(e *Elem) string {
	switch e.Kind {
	case KRule:
		return n.name(e.Name)
	case KGroup:
		return "(" + n.cwsps(0) + n.Alt(e.Alt) + n.cwsps(0) + ")"
	case KOption:
		return "[" + n.cwsps(0) + n.Alt(e.Alt) + n.cwsps(0) + "]"
	case KStr:
		pre := ""
		if e.Sens {
			pre = "%s"
			if n.p(3) {
				pre = "%S"
			}
		} else if n.p(5) {
			pre = []string{"%i", "%I"}[n.Rng.IntN(2)]
		}
		return pre + "\"" + e.Str + "\""
	case KNum:
		sep := "."
		if e.Range {
			sep = "-"
		}
		vs := make([]string, len(e.Vals))
		for i, v := range e.Vals {
			if n.p(4) {
				v = n.name(v)
			}
			if n.p(8) {
				v = "00" + v
			}
			vs[i] = v
		}
		return "%" + n.name(string(rune(e.Base))) + strings.Join(vs, sep)
	case KProse:
		return "<" + e.Str + ">"
	}
	return "?"
}

func (n *Noise) Concat(c *Concat) string {
	s := ""
	for i, r := range c.Reps {
		if i > 0 {
			s += n.cwsps(1)
		}
		s += n.repPrefix(r) + n.elem(r.Elem)
	}
	return s
}

func (n *Noise) Alt(a *Alt) string {
	s := ""
	for i, c := range a.Concats {
		if i > 0 {
			s += n.slashSep() + "/" + n.slashSep()
		}
		s += n.Concat(c)
	}
	return s
}

func (n *Noise) slashSep() string {
	if n.Level == 0 {
		return " "
	}
	if n.Rng.IntN(2) == 0 {
		return " "
	}
	return n.cwsps(0)
}

func (n *Noise) Def(d Def) string {
	op := "="
	if d.Incr {
		op = "=/"
	}
	s := n.name(d.Name)
	if n.Level == 0 {
		return s + " " + op + " " + n.Alt(d.Alt) + "\r\n"
	}
	s += n.slashSep() + op + n.slashSep() + n.Alt(d.Alt)
	for n.p(6) {
		s += n.wsp()
	}
	return s + n.cnl()
}

func (n *Noise) blanks() string {
	s := ""
	for n.p(4) {
		for n.p(2) {
			s += n.wsp()
		}
		s += n.cnl()
	}
	return s
}

// Defs renders a list of definitions.
func (n *Noise) Defs(ds []Def) string {
	s := n.blanks()
	for _, d := range ds {
		s += n.Def(d) + n.blanks()
	}
	return s
}

// Split turns a grammar into definitions, moving some trailing alternatives
// into incremental ones placed later.
func (n *Noise) Split(g *Grammar) []Def {
	var first, later []Def
	for _, r := range g.Rules {
		cs := r.Alt.Concats
		if n.Level > 0 && len(cs) > 1 && n.Rng.IntN(3) == 0 {
			k := 1 + n.Rng.IntN(len(cs)-1)
			d := Def{Name: r.Name, Alt: &Alt{Concats: cs[:k]}}
			rest := cs[k:]
			first = append(first, d)
			for len(rest) > 0 {
				m := 1 + n.Rng.IntN(len(rest))
				in := Def{Name: r.Name, Incr: true, Alt: &Alt{Concats: rest[:m]}}
				rest = rest[m:]
				if n.Rng.IntN(2) == 0 && len(later) == 0 {
					first = append(first, in)
				} else {
					later = append(later, in)
				}
			}
			continue
		}
		first = append(first, Def{Name: r.Name, Alt: r.Alt})
	}
	return append(first, later...)
}

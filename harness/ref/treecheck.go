package ref

import "fmt"

// Tree is the shape shared by every parse tree under test.
type Tree struct {
	Rule       string
	Start, End int
	Kids       []*Tree
}

// CheckTree verifies that t is a derivation of in from rule. It returns "" or
// what is wrong.
func CheckTree(g *Grammar, rule string, in []byte, t *Tree) string {
	if t == nil {
		return "nil tree"
	}
	if t.Start != 0 || t.End != len(in) {
		return fmt.Sprintf("root spans [%d,%d) of %d bytes", t.Start, t.End, len(in))
	}
	if Lower(t.Rule) != Lower(rule) {
		return fmt.Sprintf("root rule %q instead of %q", t.Rule, rule)
	}
	return checkNode(g, in, t, 0)
}

func checkNode(g *Grammar, in []byte, t *Tree, depth int) string {
	if depth > 200000 {
		return "tree too deep"
	}
	r := g.Find(t.Rule)
	if r == nil {
		return fmt.Sprintf("node names unknown rule %q", t.Rule)
	}
	pos := t.Start
	for _, k := range t.Kids {
		if k.Start != pos || k.End < k.Start {
			return fmt.Sprintf("child [%d,%d) of %s [%d,%d) does not continue at %d", k.Start, k.End, t.Rule, t.Start, t.End, pos)
		}
		pos = k.End
	}
	if pos != t.End {
		return fmt.Sprintf("children of %s [%d,%d) stop at %d", t.Rule, t.Start, t.End, pos)
	}
	m := &tokMatch{g: g, in: in, toks: t.Kids, memo: map[nodeKey][]bool{}}
	if !m.ends(r.Alt, 0)[len(t.Kids)] {
		return fmt.Sprintf("children of %s [%d,%d) spell no alternative: %s", t.Rule, t.Start, t.End, m.desc())
	}
	for _, k := range t.Kids {
		if k.Rule == "" {
			if len(k.Kids) != 0 {
				return "leaf with children"
			}
			continue
		}
		if s := checkNode(g, in, k, depth+1); s != "" {
			return s
		}
	}
	return ""
}

type tokMatch struct {
	g    *Grammar
	in   []byte
	toks []*Tree
	memo map[nodeKey][]bool
}

func (m *tokMatch) desc() string {
	s := ""
	for i, k := range m.toks {
		if i > 20 {
			return s + "..."
		}
		if k.Rule == "" {
			s += fmt.Sprintf("%q ", m.in[k.Start:k.End])
		} else {
			s += fmt.Sprintf("%s[%d,%d) ", k.Rule, k.Start, k.End)
		}
	}
	return s
}

// ends over token indices; rule references are tokens, so this never recurses
// through the grammar.
func (m *tokMatch) ends(p any, i int) []bool {
	k := nodeKey{p, i}
	if s, ok := m.memo[k]; ok {
		return s
	}
	n := len(m.toks)
	out := make([]bool, n+1)
	or := func(s []bool) bool {
		any := false
		for j, b := range s {
			if b {
				out[j] = true
				any = true
			}
		}
		return any
	}
	step := func(cur []bool, q any) ([]bool, bool) {
		nx := make([]bool, n+1)
		any := false
		for a, b := range cur {
			if b {
				for j, bb := range m.ends(q, a) {
					if bb {
						nx[j] = true
						any = true
					}
				}
			}
		}
		return nx, any
	}
	switch v := p.(type) {
	case *Alt:
		for _, c := range v.Concats {
			or(m.ends(c, i))
		}
	case *Concat:
		cur := make([]bool, n+1)
		cur[i] = true
		ok := true
		for _, r := range v.Reps {
			if cur, ok = step(cur, r); !ok {
				break
			}
		}
		or(cur)
	case *Rep:
		if v.Max != Inf && v.Max < v.Min {
			break
		}
		lim := n - i + 1
		lo, hi := min(v.Min, lim), lim
		if v.Max != Inf {
			hi = min(v.Max, lim)
		}
		cur := make([]bool, n+1)
		cur[i] = true
		for c := 0; ; c++ {
			if c >= lo {
				or(cur)
			}
			if c == hi {
				break
			}
			var ok bool
			if cur, ok = step(cur, v.Elem); !ok {
				break
			}
		}
	case *Elem:
		switch v.Kind {
		case KGroup:
			or(m.ends(v.Alt, i))
		case KOption:
			out[i] = true
			or(m.ends(v.Alt, i))
		case KRule:
			if i < n && m.toks[i].Rule != "" && Lower(m.toks[i].Rule) == Lower(v.Name) {
				out[i+1] = true
			}
		default:
			if TermEmpty(v) {
				out[i] = true // some engines drop zero-length leaves
			}
			if i < n && m.toks[i].Rule == "" && MatchTerm(v, m.in, m.toks[i].Start) == m.toks[i].End {
				out[i+1] = true
			}
		}
	}
	m.memo[k] = out
	return out
}

// CheckNested verifies only span discipline (for truncated cyclic trees).
func CheckNested(in []byte, t *Tree, root bool) string {
	if t == nil {
		return "nil tree"
	}
	if root && (t.Start != 0 || t.End != len(in)) {
		return fmt.Sprintf("root spans [%d,%d) of %d bytes", t.Start, t.End, len(in))
	}
	pos := t.Start
	for _, k := range t.Kids {
		if k.Start < pos || k.End < k.Start || k.End > t.End {
			return fmt.Sprintf("child [%d,%d) badly nested in [%d,%d)", k.Start, k.End, t.Start, t.End)
		}
		pos = k.End
		if s := CheckNested(in, k, false); s != "" {
			return s
		}
	}
	return ""
}

// TreeString renders a tree for comparisons.
func TreeString(t *Tree) string {
	if t == nil {
		return "nil"
	}
	s := fmt.Sprintf("%s[%d,%d)", t.Rule, t.Start, t.End)
	if len(t.Kids) > 0 {
		s += "{"
		for i, k := range t.Kids {
			if i > 0 {
				s += " "
			}
			s += TreeString(k)
		}
		s += "}"
	}
	return s
}

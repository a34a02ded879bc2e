// Package bridge converts between the reference AST and the library's.
package bridge

import (
	"fmt"
	"sort"

	goabnf "github.com/pandatix/go-abnf"

	"verif/ref"
)

// Lower builds a library Grammar directly (no ABNF text involved). ok is false
// when the grammar contains a prose-val, which cannot be built from outside
// the package.
func Lower(g *ref.Grammar) (*goabnf.Grammar, bool) {
	out := &goabnf.Grammar{Rulemap: map[string]*goabnf.Rule{}}
	ok := true
	for _, r := range g.Rules {
		out.Rulemap[r.Name] = &goabnf.Rule{Name: r.Name, Alternation: lowerAlt(r.Alt, &ok)}
	}
	return out, ok
}

func lowerAlt(a *ref.Alt, ok *bool) goabnf.Alternation {
	var o goabnf.Alternation
	for _, c := range a.Concats {
		var cc goabnf.Concatenation
		for _, r := range c.Reps {
			cc.Repetitions = append(cc.Repetitions, goabnf.Repetition{Min: r.Min, Max: r.Max, Element: lowerElem(r.Elem, ok)})
		}
		o.Concatenations = append(o.Concatenations, cc)
	}
	return o
}

func lowerElem(e *ref.Elem, ok *bool) goabnf.ElemItf {
	switch e.Kind {
	case ref.KRule:
		return goabnf.ElemRulename{Name: e.Name}
	case ref.KGroup:
		return goabnf.ElemGroup{Alternation: lowerAlt(e.Alt, ok)}
	case ref.KOption:
		return goabnf.ElemOption{Alternation: lowerAlt(e.Alt, ok)}
	case ref.KStr:
		return goabnf.ElemCharVal{Sensitive: e.Sens, Values: []rune(e.Str)}
	case ref.KNum:
		st := goabnf.StatSeries
		if e.Range {
			st = goabnf.StatRange
		}
		return goabnf.ElemNumVal{Base: string(rune(e.Base)), Status: st, Elems: append([]string{}, e.Vals...)}
	}
	*ok = false
	return goabnf.ElemProseVal{}
}

// Lift reads a library Grammar back. It reports unknown shapes as an error.
func Lift(g *goabnf.Grammar) (*ref.Grammar, error) {
	out := &ref.Grammar{}
	keys := make([]string, 0, len(g.Rulemap))
	for k := range g.Rulemap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		r := g.Rulemap[k]
		if r == nil {
			return nil, fmt.Errorf("nil rule under %q", k)
		}
		if ref.Lower(k) != ref.Lower(r.Name) {
			return nil, fmt.Errorf("rule %q filed under %q", r.Name, k)
		}
		a, err := liftAlt(r.Alternation)
		if err != nil {
			return nil, fmt.Errorf("rule %s: %w", k, err)
		}
		out.Rules = append(out.Rules, &ref.Rule{Name: r.Name, Alt: a})
	}
	return out, nil
}

func liftAlt(a goabnf.Alternation) (*ref.Alt, error) {
	o := &ref.Alt{}
	if len(a.Concatenations) == 0 {
		return nil, fmt.Errorf("empty alternation")
	}
	for _, c := range a.Concatenations {
		cc := &ref.Concat{}
		if len(c.Repetitions) == 0 {
			return nil, fmt.Errorf("empty concatenation")
		}
		for _, r := range c.Repetitions {
			e, err := LiftElem(r.Element)
			if err != nil {
				return nil, err
			}
			cc.Reps = append(cc.Reps, &ref.Rep{Min: r.Min, Max: r.Max, Elem: e})
		}
		o.Concats = append(o.Concats, cc)
	}
	return o, nil
}

func LiftElem(x goabnf.ElemItf) (*ref.Elem, error) {
	switch v := x.(type) {
	case goabnf.ElemRulename:
		return &ref.Elem{Kind: ref.KRule, Name: v.Name}, nil
	case goabnf.ElemGroup:
		a, err := liftAlt(v.Alternation)
		return &ref.Elem{Kind: ref.KGroup, Alt: a}, err
	case goabnf.ElemOption:
		a, err := liftAlt(v.Alternation)
		return &ref.Elem{Kind: ref.KOption, Alt: a}, err
	case goabnf.ElemCharVal:
		return &ref.Elem{Kind: ref.KStr, Str: string(v.Values), Sens: v.Sensitive}, nil
	case goabnf.ElemNumVal:
		if len(v.Base) != 1 {
			return nil, fmt.Errorf("num-val base %q", v.Base)
		}
		b := v.Base[0] | 0x20
		if b != 'b' && b != 'd' && b != 'x' {
			return nil, fmt.Errorf("num-val base %q", v.Base)
		}
		e := &ref.Elem{Kind: ref.KNum, Base: b, Range: v.Status == goabnf.StatRange, Vals: append([]string{}, v.Elems...)}
		if len(e.Vals) == 0 || e.Range && len(e.Vals) != 2 {
			return nil, fmt.Errorf("num-val with %d elements", len(e.Vals))
		}
		for _, d := range e.Vals {
			if !ref.GoodDigits(d, b) {
				return nil, fmt.Errorf("num-val digits %q base %c", d, b)
			}
		}
		return e, nil
	case goabnf.ElemProseVal:
		s := v.String()
		if len(s) < 2 {
			return nil, fmt.Errorf("prose %q", s)
		}
		return &ref.Elem{Kind: ref.KProse, Str: s[1 : len(s)-1]}, nil
	}
	return nil, fmt.Errorf("unknown element %T", x)
}

func Tree(t *goabnf.ParseTree) *ref.Tree {
	if t == nil {
		return nil
	}
	o := &ref.Tree{Rule: t.Rule, Start: t.Start, End: t.End}
	for _, k := range t.Children {
		o.Kids = append(o.Kids, Tree(k))
	}
	return o
}

package main

import (
	"errors"
	"math/big"

	goabnf "github.com/pandatix/go-abnf"

	"verif/bridge"
	"verif/gen"
	"verif/ref"
)

func spellings(c *Case, s string) string {
	if c.Rng.IntN(4) != 0 {
		return s
	}
	b := []byte(s)
	for i := range b {
		if (b[i]|32) >= 'a' && (b[i]|32) <= 'z' && c.Rng.IntN(2) == 0 {
			b[i] ^= 32
		}
	}
	return string(b)
}

// nullableBounded reports a counted repetition of a nullable element whose
// bound is large: the number of derivations (and any explicit forest) then
// grows with the bound itself, so counting monitors leave it out.
func nullableBounded(g *ref.Grammar, root string, lim int) bool {
	co := ref.Analyse(g, root)
	return g.AnyRep(root, func(rp *ref.Rep) bool {
		big := rp.Min > lim || rp.Max > lim
		return big && co.NullElem(rp.Elem)
	})
}

// c01huge runs the recogniser past 2^16 bytes; the answer is that of an
// automaton of the rule.
func c01huge(c *Case, l *gen.LongShape) {
	w := directed(c, l.Text)
	if w == nil {
		return
	}
	nfa := ref.BuildNFA(w.R, w.Root, 5000)
	for _, in := range l.Long(c.Rng, 1<<16+c.Rng.IntN(4000)) {
		want := nfa.Match(in)
		got, err := w.L.IsValid(w.Root, in)
		c.Eval(true, w.Text, w.Root, string(in))
		c.Inc("huge inputs")
		if err != nil || got != want {
			c.Fail("IsValid-huge "+w.Text, "IsValid of %d bytes %q...%q = %v, %v; the language says %v\n%s", len(in), in[:20], in[len(in)-20:], got, err, want, w.Text)
		}
	}
}

func c01(c *Case) {
	if k := c.Idx - 3000; k >= 0 && k < 3*len(gen.LongShapes) && gen.LongShapes[k/3].Recogniser {
		c01huge(c, &gen.LongShapes[k/3])
	}
	ws, kind := engineWork(c, true)
	for _, w := range ws {
		nin, ml := 24, 10
		if kind != "random" {
			nin, ml = 60, 12
		}
		if !c.Quick() {
			nin, ml = nin*2, ml+4
		}
		for _, in := range w.Inputs(c, nin, ml) {
			want := ref.Member(w.R, w.Root, in)
			root := spellings(c, w.Root)
			cp := append([]byte{}, in...)
			c.Note("IsValid(%q,%q) of %s", root, in, w.Text)
			got, err := w.L.IsValid(root, in)
			c.Eval(len(in) > 0, w.Text, w.Root, string(in))
			if err != nil {
				c.Fail("IsValid-err "+w.Key(string(in)), "IsValid(%q, %q) returned error %v (%s)\n%s", root, in, err, w.Via, w.Text)
				continue
			}
			if got != want {
				c.Fail("IsValid "+w.Key(string(in)), "IsValid(%q, %q) = %v, the language says %v (%s)\n%s", root, in, got, want, w.Via, w.Text)
			}
			if string(cp) != string(in) {
				c.Fail("IsValid-mut", "IsValid modified its input")
			}
			if want {
				c.Inc("accepted")
			} else {
				c.Inc("rejected")
			}
		}
		if c.Rng.IntN(3) == 0 {
			_, err := w.L.IsValid("no-such-rule", []byte("a"))
			var nf *goabnf.ErrRuleNotFound
			if !errors.As(err, &nf) {
				c.Fail("IsValid-unknown", "IsValid of an unknown rule: error %v, want ErrRuleNotFound", err)
			}
		}
		c.Sample("%s root %s (%s)", w.Text, w.Root, kind)
	}
}

// longInputs exercises long words of bigger grammars (C01/C02 thorough part).
func c02(c *Case) {
	ws, kind := engineWork(c, true)
	for _, w := range ws {
		if nullableBounded(w.R, w.Root, 40) {
			c.Inc("skipped_nullable_huge_bound")
			continue
		}
		nin, ml := 20, 9
		if kind != "random" {
			nin, ml = 40, 11
		}
		for _, in := range w.Inputs(c, nin, ml) {
			want := ref.Member(w.R, w.Root, in)
			root := spellings(c, w.Root)
			c.Eval(len(in) > 0, w.Text, w.Root, string(in))
			chk := func(name string, got bool, err error) {
				if err != nil {
					c.Fail(name+"-err "+w.Key(string(in)), "%s(%q, %q) error %v\n%s", name, root, in, err, w.Text)
				} else if got != want {
					c.Fail(name+" "+w.Key(string(in)), "%s(%q, %q) Valid = %v, the language says %v (%s)\n%s", name, root, in, got, want, w.Via, w.Text)
				}
			}
			c.Note("ParseForest(%q,%q) of %s", root, in, w.Text)
			f, err := goabnf.ParseForest(in, w.L, root)
			chk("ParseForest", err == nil && f.Valid(), err)
			c.Note("ParseBSR(%q,%q) of %s", root, in, w.Text)
			b, err := goabnf.ParseBSR(in, w.L, root)
			chk("ParseBSR", err == nil && b.Valid(), err)
			if c.Rng.IntN(4) == 0 {
				p, err := goabnf.Parse(in, w.L, root)
				chk("Parse", err == nil && p.Valid(), err)
			}
			if want {
				c.Inc("accepted")
			} else {
				c.Inc("rejected")
			}
		}
		if c.Rng.IntN(3) == 0 {
			_, e1 := goabnf.ParseForest([]byte("a"), w.L, "no-such-rule")
			_, e2 := goabnf.ParseBSR([]byte("a"), w.L, "no-such-rule")
			_, e3 := goabnf.Parse([]byte("a"), w.L, "no-such-rule")
			for _, e := range []error{e1, e2, e3} {
				var nf *goabnf.ErrRuleNotFound
				if !errors.As(e, &nf) {
					c.Fail("Parse-unknown", "parsing with an unknown rule: error %v, want ErrRuleNotFound", e)
				}
			}
		}
		c.Sample("%s root %s (%s)", w.Text, w.Root, kind)
	}
}

func c03(c *Case) {
	ws, kind := engineWork(c, true)
	for _, w := range ws {
		if nullableBounded(w.R, w.Root, 40) {
			c.Inc("skipped_nullable_huge_bound")
			continue
		}
		nin, ml := 20, 8
		if kind != "random" {
			nin, ml = 40, 9
		}
		for _, in := range w.Inputs(c, nin, ml) {
			rec := ref.NewRec(w.R, in)
			want, ok := ref.Count(rec, w.Root, 200000)
			if !ok {
				c.Inc("skipped_count_budget")
				continue
			}
			c.Eval(want.Sign() != 0, w.Text, w.Root, string(in))
			amb := want.Cmp(big.NewInt(1)) > 0 || want.Sign() < 0
			switch {
			case want.Sign() < 0:
				c.Inc("infinite")
			case want.Sign() == 0:
				c.Inc("none")
			case amb:
				c.Inc("ambiguous_finite")
			default:
				c.Inc("unique")
			}
			chk := func(name string, n *big.Int, a bool) {
				if n == nil || n.Cmp(want) != 0 {
					c.Fail(name+".NumTrees "+w.Key(string(in)), "%s(%q, %q).NumTrees = %v, exact count is %v (%s)\n%s", name, w.Root, in, n, want, w.Via, w.Text)
				}
				if a != amb {
					c.Fail(name+".Ambiguous "+w.Key(string(in)), "%s(%q, %q).Ambiguous = %v, exact count is %v (%s)\n%s", name, w.Root, in, a, want, w.Via, w.Text)
				}
			}
			c.Note("ParseForest(%q,%q) of %s", w.Root, in, w.Text)
			if f, err := goabnf.ParseForest(in, w.L, w.Root); err == nil {
				chk("ParseForest", f.NumTrees(), f.Ambiguous())
			} else {
				c.Fail("ParseForest-err "+w.Key(string(in)), "ParseForest: %v", err)
			}
			c.Note("ParseBSR(%q,%q) of %s", w.Root, in, w.Text)
			if f, err := goabnf.ParseBSR(in, w.L, w.Root); err == nil {
				chk("ParseBSR", f.NumTrees(), f.Ambiguous())
			} else {
				c.Fail("ParseBSR-err "+w.Key(string(in)), "ParseBSR: %v", err)
			}
			if amb {
				c.Sample("%s root %s input %q: %v derivations", w.Text, w.Root, in, want)
			}
		}
	}
}

func c04(c *Case) {
	ws, kind := engineWork(c, true)
	for _, w := range ws {
		if nullableBounded(w.R, w.Root, 40) {
			c.Inc("skipped_nullable_huge_bound")
			continue
		}
		nin, ml := 20, 9
		if kind != "random" {
			nin, ml = 40, 10
		}
		for _, in := range w.Inputs(c, nin, ml) {
			rec := ref.NewRec(w.R, in)
			n, ok := ref.Count(rec, w.Root, 200000)
			if !ok {
				c.Inc("skipped_count_budget")
				continue
			}
			c.Eval(n.Sign() != 0, w.Text, w.Root, string(in))
			chk := func(name string, t *ref.Tree) {
				msg := ""
				switch {
				case n.Sign() == 0:
					if t != nil {
						msg = "tree for invalid input"
					}
				case n.Sign() < 0:
					msg = ref.CheckNested(in, t, true)
					if msg == "" && ref.Lower(t.Rule) != ref.Lower(w.Root) {
						msg = "root is " + t.Rule
					}
				default:
					msg = ref.CheckTree(w.R, w.Root, in, t)
				}
				if msg != "" {
					c.Fail(name+".Tree "+w.Key(string(in)), "%s(%q, %q).Tree: %s (derivations: %v)\n%s\n%s", name, w.Root, in, msg, n, ref.TreeString(t), w.Text)
				}
			}
			c.Note("ParseForest.Tree(%q,%q) of %s", w.Root, in, w.Text)
			if f, err := goabnf.ParseForest(in, w.L, w.Root); err == nil {
				for k := 0; k < 2; k++ {
					chk("ParseForest", bridge.Tree(f.Tree()))
				}
			}
			c.Note("ParseBSR.Tree(%q,%q) of %s", w.Root, in, w.Text)
			if f, err := goabnf.ParseBSR(in, w.L, w.Root); err == nil {
				for k := 0; k < 2; k++ {
					chk("ParseBSR", bridge.Tree(f.Tree()))
				}
			}
			switch {
			case n.Sign() == 0:
				c.Inc("invalid_nil")
			case n.Sign() < 0:
				c.Inc("infinite_nested_only")
			default:
				c.Inc("trees_checked")
			}
		}
		c.Sample("%s root %s (%s)", w.Text, w.Root, kind)
	}
}

func tiers(quick, thorough int) func(string) int {
	return func(t string) int {
		if t == "thorough" {
			return thorough
		}
		return quick
	}
}

func init() {
	const wl = "a case is a directed hostile grammar or 4 random ones (recursive, nullable, counted, Unicode, prose/undefined/impossible parts), each built as AST or from ABNF text, with exhaustive short strings over its own alphabet, sampled words and mutations; "
	register(&Prop{ID: "C01", Count: tiers(14000, 200000), Run: c01, Rule: wl + "non-trivial: a non-empty input, distinct by (grammar, rule, input)"})
	register(&Prop{ID: "C02", Count: tiers(14000, 200000), Run: c02, Rule: wl + "non-trivial: a non-empty input, distinct by (grammar, rule, input)"})
	register(&Prop{ID: "C03", Count: tiers(14000, 200000), Run: c03, Rule: wl + "non-trivial: a derivable input, distinct by (grammar, rule, input)",
		Assume: []string{"counted repetitions of nullable elements with bounds above 40 are left out: the number of derivations itself grows with the bound"}})
	register(&Prop{ID: "C04", Count: tiers(12000, 200000), Run: c04, Rule: wl + "non-trivial: a derivable input, distinct by (grammar, rule, input)"})
}

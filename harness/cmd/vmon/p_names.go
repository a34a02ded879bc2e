package main

import (
	"errors"
	"fmt"
	"regexp"
	"strings"
	"unicode/utf8"

	goabnf "github.com/pandatix/go-abnf"

	"verif/gen"
	"verif/ref"
)

// ------------------------------------------------- C23 names and core rules

func respell(c *Case, s string) string {
	b := []byte(s)
	switch c.Rng.IntN(4) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	}
	for i, x := range b {
		if (x|32) >= 'a' && (x|32) <= 'z' && c.Rng.IntN(2) == 0 {
			b[i] = x ^ 32
		}
	}
	return string(b)
}

// renamed copies a grammar, passing every rule name through f.
func renamed(g *ref.Grammar, f func(string) string) *ref.Grammar {
	var alt func(a *ref.Alt) *ref.Alt
	alt = func(a *ref.Alt) *ref.Alt {
		n := &ref.Alt{}
		for _, cc := range a.Concats {
			nc := &ref.Concat{}
			for _, r := range cc.Reps {
				e := *r.Elem
				switch e.Kind {
				case ref.KRule:
					e.Name = f(e.Name)
				case ref.KGroup, ref.KOption:
					e.Alt = alt(e.Alt)
				}
				nc.Reps = append(nc.Reps, &ref.Rep{Min: r.Min, Max: r.Max, Elem: &e})
			}
			n.Concats = append(n.Concats, nc)
		}
		return n
	}
	out := &ref.Grammar{}
	for _, r := range g.Rules {
		out.Rules = append(out.Rules, &ref.Rule{Name: f(r.Name), Alt: alt(r.Alt)})
	}
	return out
}

// sameRoute builds the library's grammar the way w was built.
func sameRoute(w *Work, r *ref.Grammar, root string) *Work {
	if w.Via == "ast" {
		return viaAST(r, root)
	}
	return viaText(r.Text(), root)
}

func c23names(c *Case, w *Work) {
	nul := nullableBounded(w.R, w.Root, 16)
	in := oddBytes(c, w, w.Root)
	if len(in) > 12 {
		in = in[:12]
	}
	x := opArgs{g: w.L, rule: w.Root, in: in, tape: oddBytes(c, w, w.Root), seed: c.Rng.Int64()}
	low := x
	low.fold = strings.ToLower

	// another spelling everywhere in the grammar
	re := renamed(w.R, func(s string) string { return respell(c, s) })
	wr := sameRoute(w, re, w.Root)
	// one rule renamed to a core rule the grammar has no use for
	var wc *Work
	var coreFold func(string) string
	if len(w.R.Rules) > 0 {
		used := map[string]bool{}
		for _, r := range w.R.Rules {
			used[ref.Lower(r.Name)] = true
			for k := range w.R.Reach(r.Name) {
				used[ref.Lower(k)] = true
			}
		}
		r := w.R.Rules[c.Rng.IntN(len(w.R.Rules))]
		core := ref.CoreNames[c.Rng.IntN(len(ref.CoreNames))]
		if !used[ref.Lower(core)] && ref.CoreRule(r.Name) == nil {
			old := ref.Lower(r.Name)
			g2 := renamed(w.R, func(s string) string {
				if ref.Lower(s) == old {
					return respell(c, core)
				}
				return s
			})
			root := w.Root
			if ref.Lower(root) == old {
				root = core
			}
			if wc = sameRoute(w, g2, root); wc != nil {
				// both names read the same on both sides: an answer may
				// also hold either of them as plain text
				cl := ref.Lower(core)
				both := regexp.MustCompilePOSIX(regexp.QuoteMeta(cl) + "|" + regexp.QuoteMeta(old))
				coreFold = func(s string) string {
					return both.ReplaceAllString(ref.Lower(s), "<name>")
				}
			}
		}
	}
	for _, o := range ops {
		if o.producing() && longWords(w.R, w.Root) || nul && strings.HasPrefix(o.name, "Parse") {
			continue
		}
		c.Safe(fmt.Sprintf("%s(%q, %q) of %s", o.name, w.Root, in, w.Text), func() {
			want := o.run(low)
			if o.rule {
				for k := 0; k < 2; k++ {
					y := low
					y.rule = respell(c, w.Root)
					got := o.run(y)
					c.Eval(y.rule != w.Root, o.name, y.rule, w.Text, string(in))
					c.Inc("spellings of the root")
					if got != want {
						c.Fail(o.name+" spelling "+w.Key(y.rule), "%s(%q, %q) answers\n  %s\nand %s(%q, …)\n  %s\n%s", o.name, w.Root, in, want, o.name, y.rule, got, w.Text)
					}
				}
			}
			if wr != nil && o.name != "Print" {
				y, z := low, low
				y.g, y.rule, y.loose, z.loose = wr.L, respell(c, w.Root), true, true
				got := o.run(y)
				want := o.run(z)
				c.Eval(true, o.name, wr.Text, string(in))
				c.Inc("spellings within the grammar")
				if got != want {
					c.Fail(o.name+" respelled "+w.Key(y.rule), "%s(%q, %q) answers\n  %s\nand with rule names spelled otherwise\n  %s\n%s\n%s", o.name, w.Root, in, want, got, w.Text, wr.Text)
				}
			}
			if wc != nil && o.name != "DependencyGraph" && o.name != "GenerateGoParser" && o.name != "Print" {
				a, b := low, low
				a.fold, a.loose, b.loose = coreFold, true, true
				b.g, b.rule, b.fold = wc.L, wc.Root, coreFold
				want, got := o.run(a), o.run(b)
				c.Eval(true, o.name, wc.Text, string(in))
				c.Inc("redefined core rules")
				if got != want {
					c.Fail(o.name+" redefined "+wc.Key(wc.Root), "%s(%q, %q) answers\n  %s\nand with one rule named after a core rule\n  %s\n%s\n%s", o.name, w.Root, in, want, got, w.Text, wc.Text)
				}
			}
		})
	}
	// names the grammar does not define
	names := append([]string{}, oddRules...)
	if len(w.Root) > 0 {
		names = append(names, w.Root+"x", w.Root[:len(w.Root)-1], w.Root+"-", " "+w.Root, w.Root+" ", w.Root+"\x00", w.Root+"\r\n", w.Root+"ſ", strings.ReplaceAll(w.Root, "-", "_"), "("+w.Root+")")
	}
	names = append(names, "digit ", "DIGI", "DIGITS", "C R", "alpha.", "\u212aey", "VCHAR\u0000", "DİGİT", "hexdıg", "lWſP", "C\u0052LF\u200b")
	for k := 0; k < 4; k++ {
		n := names[c.Rng.IntN(len(names))]
		if w.R.Find(n) != nil {
			continue
		}
		for _, o := range ops {
			if !o.rule {
				continue
			}
			c.Safe(fmt.Sprintf("%s(%q) of %s", o.name, n, w.Text), func() {
				d := o.run(opArgs{g: w.L, rule: n, in: in, tape: x.tape, seed: x.seed})
				c.Eval(true, o.name, n, w.Text)
				c.Inc("unknown names")
				if !strings.Contains(d, "ErrRuleNotFound") && d != "no rule" {
					c.Fail(o.name+" unknown "+w.Key(n), "%s(%q): the grammar has no such rule, yet the answer is %s\n%s", o.name, n, d, w.Text)
				}
			})
		}
		for what, err := range map[string]error{
			"Parse":    func() error { _, e := goabnf.Parse(in, w.L, n); return e }(),
			"Generate": func() error { _, e := w.L.Generate(1, n); return e }(),
		} {
			if err == nil || !isNotFound(err) {
				c.Fail(what+" unknown "+w.Key(n), "%s(%q): the grammar has no such rule, yet the error is %v\n%s", what, n, err, w.Text)
			}
		}
	}
}

// coreInputs are byte strings telling the core rules apart.
func coreStrings() []string {
	al := []string{"\r", "\n", " ", "\t", "a"}
	out := []string{""}
	last := []string{""}
	for l := 0; l < 5; l++ {
		var nx []string
		for _, p := range last {
			for _, a := range al {
				nx = append(nx, p+a)
			}
		}
		last = nx
		out = append(out, nx...)
	}
	for b := 0; b < 256; b++ {
		out = append(out, string([]byte{byte(b)}))
	}
	return append(out, "\r\n \r\n\t \t", "\r\n\r\n", " \r\n", "\r\n \r\n", "aA", "0F", "é", "ÿ", "Ā", "\u212a", "ſ", "\ufffd", "\U0010ffff")
}

func c23core(c *Case) {
	name := ref.CoreNames[c.Idx%len(ref.CoreNames)]
	rg := &ref.Grammar{Rules: []*ref.Rule{{Name: "s", Alt: ref.MustGrammar("s = " + name + "\r\n").Rules[0].Alt}}}
	var gs []*goabnf.Grammar
	var roots []string
	for _, t := range []string{"s = " + name + "\r\n", "s = " + strings.ToLower(name) + "\r\n", "s = (" + respell(c, name) + ")\r\nt = s\r\n"} {
		w := viaText(t, "s")
		if w == nil {
			c.Fail("core text "+t, "ParseABNF(%q) refused", t)
			return
		}
		gs, roots = append(gs, w.L), append(roots, "s")
	}
	gs, roots = append(gs, gs[0], goabnf.ABNF, &goabnf.Grammar{Rulemap: map[string]*goabnf.Rule{}}), append(roots, respell(c, name), respell(c, name), strings.ToLower(name))

	// every code point, against the pattern and the validator
	re0 := make([]*regexp.Regexp, len(gs))
	for i, g := range gs {
		p, err := g.Regex(roots[i])
		if err != nil {
			c.Fail("core regex "+name, "Regex(%q): %v", roots[i], err)
			return
		}
		if re0[i], err = regexp.Compile(`\A(?:` + p + `)\z`); err != nil {
			c.Fail("core regex "+name, "Regex(%q) = %q: %v", roots[i], p, err)
			return
		}
	}
	check := func(in []byte, deep bool) {
		want := ref.Member(rg, "s", in)
		for i, g := range gs {
			if !deep && i != int(in[0])%len(gs) {
				continue
			}
			got, err := g.IsValid(roots[i], in)
			c.Eval(true, name, string(in), fmt.Sprint(i))
			if err != nil || got != want {
				c.Fail("core "+name, "IsValid(%q, %q) = %v, %v; %s of RFC 5234 says %v", roots[i], in, got, err, name, want)
			}
			if utf8.Valid(in) && re0[i].Match(in) != want {
				c.Fail("core regex "+name, "Regex(%q) = %s on %q: %v; %s of RFC 5234 says %v", roots[i], re0[i], in, !want, name, want)
			}
			if !deep {
				continue
			}
			f, err := goabnf.ParseForest(in, g, roots[i])
			if err != nil || f.Valid() != want {
				c.Fail("core "+name, "ParseForest(%q, %q) = %v, %v; %s of RFC 5234 says %v", in, roots[i], f != nil && f.Valid(), err, name, want)
			}
			b, err := goabnf.ParseBSR(in, g, roots[i])
			if err != nil || b.Valid() != want {
				c.Fail("core "+name, "ParseBSR(%q, %q) = %v, %v; %s of RFC 5234 says %v", in, roots[i], b != nil && b.Valid(), err, name, want)
			}
		}
	}
	for _, s := range coreStrings() {
		check([]byte(s), true)
	}
	for cp := rune(0); cp < 0x300; cp++ {
		check([]byte(string(cp)), true)
	}
	step := rune(1)
	if c.Quick() {
		step = 37
	}
	for cp := rune(0x300); cp <= utf8.MaxRune; cp += 1 + rune(c.Rng.IntN(int(step))) {
		if utf8.ValidRune(cp) {
			check([]byte(string(cp)), false)
		}
	}
	c.Inc("core rules walked")

	// extending or redefining is refused unless asked for, and the built-in stays
	for _, d := range []string{" = \"x\"\r\n", " =/ \"x\"\r\n"} {
		for k := 0; k < 2; k++ {
			t := respell(c, name) + d + "s = " + name + "\r\n"
			g, err := goabnf.ParseABNF([]byte(t), goabnf.WithRedefineCoreRules(k == 1))
			c.Eval(true, t, fmt.Sprint(k))
			if k == 0 {
				var cm *goabnf.ErrCoreRuleModify
				if g != nil || !errors.As(err, &cm) {
					c.Fail("core modify "+t, "ParseABNF(%q) without WithRedefineCoreRules: grammar %v, error %v", t, g != nil, err)
				}
				continue
			}
			if err != nil {
				c.Fail("core modify "+t, "ParseABNF(%q, WithRedefineCoreRules): %v", t, err)
				continue
			}
			v, _ := g.IsValid("s", []byte("x"))
			was := ref.Member(rg, "s", []byte("x"))
			w2, _ := gs[0].IsValid("s", []byte("x"))
			if !v || w2 != was {
				c.Fail("core modify "+t, "after ParseABNF(%q): \"x\" is valid %v there and %v (RFC: %v) with the built-in rule", t, v, w2, was)
			}
		}
	}
}

func c23(c *Case) {
	if c.Idx < len(ref.CoreNames) {
		c23core(c)
		return
	}
	cc := *c
	cc.Idx -= len(ref.CoreNames)
	var ws []*Work
	var kind string
	if cc.Idx%3 == 2 {
		kind = "core-heavy"
		p := gen.RandomProfile(c.Rng)
		p.Core = true
		r := gen.Random(c.Rng, p)
		if w := build(c, r, r.Rules[0].Name); w != nil {
			ws = append(ws, w)
		}
	} else {
		cc.Idx = cc.Idx * 2 / 3
		ws, kind = engineWork(&cc, false)
	}
	for _, w := range ws {
		c.Inc("grammars " + kind)
		c.Sample("%s", w.Text)
		c23names(c, w)
	}
}

func init() {
	register(&Prop{ID: "C23", Count: tiers(2500, 20000), Run: c23, CaseSec: 120,
		Rule: "every operation on a grammar, on the same one under other spellings of the root and of every rule name, and with one rule named after a core rule; unknown and look-alike names; every core rule over code points and strings of line ends and blanks"})
}

package main

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"

	goabnf "github.com/pandatix/go-abnf"

	"verif/bridge"
	"verif/gen"
	"verif/ref"
)

// ------------------------------------------------------------ ABNF texts

// textGrammar draws a grammar as a list of definitions for the front end.
func textGrammar(c *Case, bad bool) *ref.Grammar {
	p := gen.RandomProfile(c.Rng)
	p.Core = c.Rng.IntN(2) == 0
	p.Prose = c.Rng.IntN(2) == 0
	p.Undef = bad && c.Rng.IntN(3) == 0
	p.BadRep = bad && c.Rng.IntN(3) == 0
	p.BadNum = bad && c.Rng.IntN(2) == 0
	p.Huge = c.Rng.IntN(4) == 0
	p.Rules = 1 + c.Rng.IntN(5)
	p.Depth = c.Rng.IntN(4)
	p.NoEmpty = false
	return gen.Random(c.Rng, p)
}

// renameCore turns some rule into a redefinition of a core rule, references
// included or not.
func renameCore(c *Case, g *ref.Grammar) {
	r := g.Rules[c.Rng.IntN(len(g.Rules))]
	n := ref.CoreNames[c.Rng.IntN(len(ref.CoreNames))]
	if g.FindUser(n) != nil {
		return
	}
	r.Name = n
}

var soup = []string{"a", "rule-1", "=", "=/", "/", " ", "\t", "\r\n", "\n", "\r", ";", "; c\r\n", "\"", "\"x\"", "%x41", "%d", "%b01", "%x41-5A", "%x41.42", "%s\"Ab\"", "%i\"c\"", "%S", "(", ")", "[", "]", "*", "2", "1*3", "<", ">", "<p>", "-", ".", "é", "\x00", "\xff", "\x7f", "a = b\r\n", "b =/ c", "\r\n ", "_", "!", "'"}

// padded puts n bytes of comment lines before, between and after the rules of
// a text, and a rule behind them.
func padded(c *Case, text string, n int) string {
	var b strings.Builder
	for b.Len() < n {
		b.WriteString(";" + strings.Repeat(" padding", c.Rng.IntN(9)) + "\r\n")
	}
	last := "zz-last = \"z\"\r\n"
	if c.Rng.IntN(3) == 0 {
		return b.String() + text + last
	}
	return text + b.String() + last
}

// texts yields ABNF candidate texts, from well-formed to garbage.
func texts(c *Case) []string {
	var out []string
	g := textGrammar(c, true)
	n := &ref.Noise{Rng: c.Rng, Level: c.Rng.IntN(3)}
	base := n.Defs(n.Split(g))
	out = append(out, base)
	al := []rune("a=/ \t\r\n;\"%xsibd*()[]<>-.0129Zé")
	for k := 0; k < 6; k++ {
		out = append(out, string(gen.Mutate(c.Rng, []byte(base), al)))
	}
	// token-level surgery
	b := []byte(base)
	for k := 0; k < 4; k++ {
		i := c.Rng.IntN(len(b) + 1)
		j := i
		if c.Rng.IntN(2) == 0 {
			j = min(len(b), i+c.Rng.IntN(4))
		}
		out = append(out, string(b[:i])+soup[c.Rng.IntN(len(soup))]+string(b[j:]))
	}
	// soup
	for k := 0; k < 3; k++ {
		s := "a = "
		if c.Rng.IntN(3) == 0 {
			s = ""
		}
		for m := c.Rng.IntN(9); m > 0; m-- {
			s += soup[c.Rng.IntN(len(soup))]
		}
		if c.Rng.IntN(2) == 0 {
			s += "\r\n"
		}
		out = append(out, s)
	}
	// truncations
	if len(b) > 0 {
		out = append(out, string(b[:c.Rng.IntN(len(b))]), strings.ReplaceAll(base, "\r\n", "\n"))
	}
	return out
}

var directedTexts = []string{
	"", "\r\n", " \r\n", ";\r\n", "a", "a =", "a = b", "a = b\n", "a = b\r\n", "a=b\r\n", "a = b \r\n", "a = b ; c\r\n", " a = b\r\n", "\r\na = b\r\n",
	"a =\r\n b\r\n", "a =\r\nb\r\n", "a = b\r\n c\r\n", "a = b\r\n\r\n", "a = b\r\n \r\n", "a = b ;=/\r\n", "a ;=/ x\r\n = b\r\n", "a = ;=/\r\n b\r\n",
	"a =/ b\r\n", "a = b\r\nA =/ c\r\n", "a = b\r\nA = c\r\n", "1a = b\r\n", "-a = b\r\n", "a- = b\r\n", "a_b = c\r\n", "a = \"\"\r\n", "a = \"\x7f\"\r\n", "a = \"\t\"\r\n",
	"a = %s\"\"\r\n", "a = %x\r\n", "a = %x4G\r\n", "a = %xZ\r\n", "a = %b2\r\n", "a = %d1A\r\n", "a = %x41-\r\n", "a = %x41-42-43\r\n", "a = %x41.42-43\r\n", "a = %x41.\r\n",
	"a = <>\r\n", "a = <a>b>\r\n", "a = <\t>\r\n", "a = ()\r\n", "a = ( b )\r\n", "a = (b\r\n )\r\n", "a = [ b / ]\r\n", "a = b /\r\n", "a = / b\r\n", "a = *b\r\n", "a = * b\r\n", "a = 1 * 2b\r\n",
	"a = 2b\r\n", "a = 2*b\r\n", "a = *2b\r\n", "a = 1*1b\r\n", "a = 01*007b\r\n", "a = b c\r\n", "a = bc\r\n", "a = \"b\"c\r\n", "a = \"b\"\"c\"\r\n", "a = b(c)\r\n", "a = (b)c\r\n",
	"a = b ;\r\n ;\r\n c\r\n", "a = b;\x01\r\n", "a = b ;é\r\n", "a\t=\tb\r\n", "a\r\n = b\r\n", "a = b\r\n ; trailing\r\n", "a = b\r\n;\r\n ;\r\n\tc\r\n", "A=%X4A / %B1 / %D65 / %I\"x\" / %S\"x\"\r\n",
	"a = b\r\r\n", "a = b\r", "a = b\r\n\r", "a = 99999999999999999999\"x\"\r\n", "a = *99999999999999999999\"x\"\r\n", "a = \"x\" / \r\n \"y\"\r\n", "a = \"x\"\r\n / \"y\"\r\n", "a = \"x\"\r\n/ \"y\"\r\n",
	"a = b\r\n\tb = c\r\n", "a = b\r\n b = c\r\n", "a = b ; =\r\n", "a = \"=/\"\r\n", "a = \";\"\r\n", "a = <;=/>\r\n", "a = \"(\" ( \")\" )\r\n", "a = %x22\r\n", "a=\"a\" ; \"\r\n", "a==b\r\n", "a=//b\r\n", "a=/=b\r\n", "a= /b\r\n", "a = / b\r\n",
}

// holes are texts with a place (\xfe) where every byte value is tried.
var holes = []string{
	"a = \"\xfe\"\r\n", "a = %s\"x\xfey\"\r\n", "a = <\xfe>\r\n", "a = <x\xfey>\r\n", "a = b ;\xfe\r\n", "a = b ; x\xfey\r\n", ";\xfe\r\na = b\r\n",
	"\xfea = b\r\n", "a\xfe = b\r\n", "x\xfey = b\r\n", "\xfe = b\r\n", "a\xfe= b\r\n", "a =\xfeb\r\n", "a =\xfe\"b\"\r\n", "a = b\xfec\r\n", "a = \"b\"\xfe\"c\"\r\n",
	"a = %x\xfe\r\n", "a = %d\xfe\r\n", "a = %b\xfe\r\n", "a = %x4\xfe\r\n", "a = %d4\xfe\r\n", "a = %b1\xfe\r\n", "a = %x41\xfe42\r\n", "a = %d65\xfe66\r\n", "a = %b1\xfe1\r\n",
	"a = %x41-4\xfe\r\n", "a = %x41.4\xfe\r\n", "a = %x41.42\xfe43\r\n", "a = %\xfe1\r\n", "a = %\xfe\"x\"\r\n", "a = b\xfe\r\n", "a = b\r\xfe", "a = b\xfe", "a = b\xfe\n", "a = \xfeb\r\n",
	"a = 1\xfeb\r\n", "a = *\xfeb\r\n", "a = 1*2\xfeb\r\n", "a = \xfe(b)\r\n", "a = (b\xfe)\r\n", "a = (b\xfe\r\n", "a = [b\xfe]\r\n", "a = [b\xfe\r\n", "a = b /\xfe c\r\n", "a = b \xfe c\r\n",
	"a = b\r\n\xfe", "a = b\r\n\xfec\r\n", "a = b\r\n\xfe= c\r\n", "\xfe", "\xfe\r\n", "\xfe\r\na = b\r\n", "a =\xfe b\r\n", "a \xfe= b\r\n", "a = b\r\na =\xfe c\r\n", "a = \"\xfe\r\n", "a = <\xfe\r\n",
}

// sweep fills the k-th hole with every byte value.
func sweep(k int) []string {
	var out []string
	for b := 0; b < 256; b++ {
		out = append(out, strings.ReplaceAll(holes[k], "\xfe", string([]byte{byte(b)})))
	}
	return out
}

func texts14(c *Case) []string {
	if c.Idx < len(holes) {
		return sweep(c.Idx)
	}
	cc := *c
	cc.Idx -= len(holes)
	c = &cc
	rs := Reals()
	switch {
	case c.Idx == 0:
		return directedTexts
	case c.Idx <= len(rs):
		return []string{string(rs[c.Idx-1].Text)}
	case c.Idx <= 2*len(rs) && len(rs) > 0:
		t := rs[c.Idx-1-len(rs)].Text
		if len(t) > 6000 {
			t = t[:6000]
		}
		return []string{string(gen.Mutate(c.Rng, t, []rune("a=/ \r\n;\"%*()[]<>-.0129Z")))}
	}
	return texts(c)
}

func semFail(err error) string {
	var (
		core *goabnf.ErrCoreRuleModify
		dup  *goabnf.ErrDuplicatedRule
		nf   *goabnf.ErrRuleNotFound
		dep  *goabnf.ErrDependencyNotFound
		rep  *goabnf.ErrSemanticRepetition
		num  *goabnf.ErrTooLargeNumeral
	)
	switch {
	case errors.As(err, &core):
		return "core"
	case errors.As(err, &dup):
		return "dup"
	case errors.As(err, &nf):
		return "noincr"
	case errors.As(err, &dep):
		return "undef"
	case errors.As(err, &rep):
		return "rep"
	case errors.As(err, &num):
		return "num"
	case errors.Is(err, goabnf.ErrNoSolutionFound):
		return "syntax"
	}
	return "other"
}

func loose() []goabnf.ABNFOption {
	return []goabnf.ABNFOption{goabnf.WithValidation(false), goabnf.WithRedefineCoreRules(true)}
}

func c14(c *Case) {
	for _, t := range texts14(c) {
		defs, perr := ref.ParseText([]byte(t))
		var berr *ref.SemError
		if perr == nil {
			_, berr = ref.Build(defs, true)
		}
		in := []byte(t)
		c.Note("ParseABNF(%q)", t)
		g, err := goabnf.ParseABNF(in, loose()...)
		c.Eval(true, t)
		key := fmt.Sprintf("ParseABNF %q", t)
		if len(key) > 3000 {
			key = key[:3000]
		}
		switch {
		case perr != nil:
			c.Inc("not_abnf")
			if err == nil {
				c.Fail(key, "ParseABNF accepts %q, which is not ABNF (%v)", t, perr)
			} else if !errors.Is(err, goabnf.ErrNoSolutionFound) {
				c.Fail(key, "ParseABNF(%q): error %v (%T) does not unwrap to ErrNoSolutionFound", t, err, err)
			}
			if err != nil && g != nil {
				c.Fail(key, "ParseABNF(%q) returns a grammar along with error %v", t, err)
			}
		case berr != nil:
			c.Inc("definition_conflict")
			if err == nil || errors.Is(err, goabnf.ErrNoSolutionFound) {
				c.Fail(key, "ParseABNF(%q): %v; the text is ABNF but its definitions conflict (%v)", t, err, berr)
			}
		default:
			c.Inc("abnf")
			if err != nil {
				c.Fail(key, "ParseABNF refuses %q: %v (%T)", t, err, err)
			} else if g == nil {
				c.Fail(key, "ParseABNF(%q) returns neither grammar nor error", t)
			}
		}
		if string(in) != t {
			c.Fail("mutates", "ParseABNF modified its input %q", t)
		}
		c.Sample("%q -> %v", t, perr == nil)
	}
}

func c15(c *Case) {
	var ts []string
	cc := *c
	cc.Idx -= len(holes)
	rs := Reals()
	switch {
	case cc.Idx < 0:
		ts = sweep(c.Idx)
	case cc.Idx == 0:
		ts = directedTexts
	case cc.Idx <= len(rs):
		ts = []string{string(rs[cc.Idx-1].Text)}
	default:
		for k := 0; k < 4; k++ {
			g := textGrammar(c, true)
			if c.Rng.IntN(3) == 0 {
				renameCore(c, g)
			}
			n := &ref.Noise{Rng: c.Rng, Level: 1 + c.Rng.IntN(2)}
			ts = append(ts, n.Defs(n.Split(g)))
		}
		ts = append(ts, texts(c)[:8]...)
		if c.Idx%97 == 3 {
			ts = append(ts, padded(c, ts[0], 4200+c.Rng.IntN(9000)))
			c.Inc("long texts")
		}
	}
	for _, t := range ts {
		defs, perr := ref.ParseText([]byte(t))
		if perr != nil {
			continue
		}
		want, berr := ref.Build(defs, true)
		if berr != nil {
			continue
		}
		chk := func(how string, g *goabnf.Grammar, err error) {
			c.Eval(len(want.Rules) > 0, how, t)
			key := how + " " + t
			if len(key) > 3000 {
				key = key[:3000]
			}
			if err != nil {
				c.Fail(key, "%s refuses %q: %v", how, t, err)
				return
			}
			got, lerr := bridge.Lift(g)
			if lerr != nil {
				c.Fail(key, "%s(%q): ill-formed grammar: %v", how, t, lerr)
				return
			}
			if d := ref.Diff(want, got); d != "" {
				c.Fail(key, "%s(%q): text and grammar differ: %s", how, t, d)
			}
			for k, r := range g.Rulemap {
				if !strings.EqualFold(k, r.Name) {
					c.Fail(key, "%s(%q): rule %s filed under %s", how, t, r.Name, k)
				}
			}
		}
		c.Note("ParseABNF(%q)", t)
		g, err := goabnf.ParseABNF([]byte(t), loose()...)
		chk("ParseABNF", g, err)
		f, err := goabnf.ParseForest([]byte(t), goabnf.ABNF, "rulelist")
		if err != nil || !f.Valid() {
			c.Fail("forest "+t, "the ABNF grammar does not parse %q: %v", t, err)
			continue
		}
		g, err = goabnf.EvaluateABNF([]byte(t), f, goabnf.WithRedefineCoreRules(true))
		chk("EvaluateABNF", g, err)
		c.Sample("%q", t)
		c.Add("rules", len(want.Rules))
		for _, r := range want.Rules {
			ref.WalkAlt(r.Alt, func(rp *ref.Rep) { c.Inc(fmt.Sprintf("elements_kind_%d", rp.Elem.Kind)) })
		}
	}
}

func c16(c *Case) {
	var gs []*ref.Grammar
	var ts []string
	rs := Reals()
	switch {
	case c.Idx < len(rs):
		gs = append(gs, rs[c.Idx].Ref)
		ts = append(ts, string(rs[c.Idx].Text))
	case c.Idx < len(rs)+len(holes):
		ts = sweep(c.Idx - len(rs))
	default:
		for k := 0; k < 4; k++ {
			g := textGrammar(c, true)
			if c.Rng.IntN(4) == 0 {
				renameCore(c, g)
			}
			n := &ref.Noise{Rng: c.Rng, Level: c.Rng.IntN(3)}
			ts = append(ts, n.Defs(n.Split(g)))
		}
		for _, d := range gen.Directed {
			if c.Rng.IntN(20) == 0 {
				ts = append(ts, crlf(d))
			}
		}
	}
	for _, t := range ts {
		g, err := goabnf.ParseABNF([]byte(t), loose()...)
		if err != nil {
			c.Inc("skipped_refused")
			continue
		}
		want, err := bridge.Lift(g)
		if err != nil {
			c.Fail("lift "+t, "%q: ill-formed grammar: %v", t, err)
			continue
		}
		lines := func(s string) string {
			ls := strings.Split(s, "\r\n")
			sort.Strings(ls)
			return strings.Join(ls, "\r\n")
		}
		for how, pr := range map[string]func(*goabnf.Grammar) string{"String": (*goabnf.Grammar).String, "PrettyPrint": (*goabnf.Grammar).PrettyPrint} {
			s := pr(g)
			c.Eval(true, how, t)
			key := how + " " + t
			if len(want.Rules) == 0 {
				continue // blank grammars print as nothing
			}
			if len(key) > 3000 {
				key = key[:3000]
			}
			defs, perr := ref.ParseText([]byte(s))
			if perr != nil {
				c.Fail(key, "%s prints %q, which is not ABNF (%v)", how, s, perr)
				continue
			}
			back, berr := ref.Build(defs, true)
			if berr != nil {
				c.Fail(key, "%s prints conflicting definitions %q: %v", how, s, berr)
				continue
			}
			if d := ref.Diff(want, back); d != "" {
				c.Fail(key, "%s of %q prints %q: meaning changed: %s", how, t, s, d)
			}
			g2, err := goabnf.ParseABNF([]byte(s), loose()...)
			if err != nil {
				c.Fail(key, "%s output %q is refused by ParseABNF: %v", how, s, err)
				continue
			}
			l2, err := bridge.Lift(g2)
			if err != nil {
				c.Fail(key, "%s output %q: %v", how, s, err)
				continue
			}
			if d := ref.Diff(want, l2); d != "" {
				c.Fail(key, "%s output %q parses back differently: %s", how, s, d)
			}
			if s2 := pr(g2); lines(s2) != lines(s) {
				c.Fail(key, "%s is not a fixpoint: %q then %q", how, s, s2)
			}
		}
		c.Sample("%q", t)
	}
}

// numNear makes numerals around the Unicode limit in every base.
func numNear(c *Case) *ref.Elem {
	base := []byte("bdx")[c.Rng.IntN(3)]
	vals := []int64{0x10FFFE, 0x10FFFF, 0x110000, 0x110001, 0x10FFFF * 2, 0x1FFFFF, 0x200000, 0xFFFFF, 0x100000, 0x10F000, 0x1000000, 1114111, 1114112, 1114120, 1114200, 1115111, 1199999, 1200000, 999999, 1000000, 2000000, 0x7FFFFFFF, 0x100000041, 0, 0xD800}
	mk := func() string {
		v := vals[c.Rng.IntN(len(vals))]
		if c.Rng.IntN(3) == 0 {
			v = int64(c.Rng.IntN(0x300000))
		}
		s := map[byte]string{'b': fmt.Sprintf("%b", v), 'd': fmt.Sprintf("%d", v), 'x': fmt.Sprintf("%X", v)}[base]
		if c.Rng.IntN(4) == 0 {
			s = strings.Repeat("0", c.Rng.IntN(25)) + s
		}
		return s
	}
	e := &ref.Elem{Kind: ref.KNum, Base: base, Vals: []string{mk()}}
	switch c.Rng.IntN(3) {
	case 0:
		e.Range = true
		e.Vals = append(e.Vals, mk())
	case 1:
		e.Vals = append(e.Vals, mk(), mk())
	}
	return e
}

// sweepBounds puts a slice of all values up to 0x3FFFFF, and of digit strings
// near the limit, through the semantic validation: every base, both letter
// cases, as a lone value and as either end of a pair. The slices of 1600
// consecutive cases cover everything.
func sweepBounds(c *Case) {
	const slices, limit = 1600, 0x400000
	chk := func(base byte, digits string, v int64) {
		b := string(base)
		if c.Rng.IntN(4) == 0 {
			b = strings.ToUpper(b)
		}
		if base == 'x' && c.Rng.IntN(2) == 0 {
			digits = strings.ToLower(digits)
		}
		if c.Rng.IntN(8) == 0 {
			digits = strings.Repeat("0", 1+c.Rng.IntN(9)) + digits
		}
		e := goabnf.ElemNumVal{Base: b, Status: goabnf.StatSeries, Elems: []string{digits}}
		switch c.Rng.IntN(6) {
		case 0:
			e.Elems = []string{"1", digits}
		case 1:
			e.Elems = []string{digits, "1"}
		case 2:
			e.Status, e.Elems = goabnf.StatRange, []string{"0", digits}
		}
		g := &goabnf.Grammar{Rulemap: map[string]*goabnf.Rule{"a": {Name: "a", Alternation: goabnf.Alternation{
			Concatenations: []goabnf.Concatenation{{Repetitions: []goabnf.Repetition{{Min: 1, Max: 1, Element: e}}}}}}}}
		err := goabnf.SemvalABNF(g)
		c.Inc("bounds_checked")
		if (err != nil) != (v > 0x10FFFF) || err != nil && semFail(err) != "num" {
			c.Fail(fmt.Sprintf("Semval a = %v", e), "SemvalABNF of %%%s%s: %v; the value is %#x", b, strings.Join(e.Elems, " / "), err, v)
		}
	}
	for v := int64(c.Idx % slices); v < limit; v += slices {
		for _, base := range []byte("bdx") {
			chk(base, strconv.FormatInt(v, map[byte]int{'b': 2, 'd': 10, 'x': 16}[base]), v)
		}
	}
	// the limit with any one digit changed, and digits appended
	for _, base := range []byte("bdx") {
		n := map[byte]int{'b': 2, 'd': 10, 'x': 16}[base]
		lim := strings.ToUpper(strconv.FormatInt(0x10FFFF, n))
		for i := range lim {
			for d := 0; d < n; d++ {
				s := lim[:i] + strings.ToUpper(strconv.FormatInt(int64(d), n)) + lim[i+1:]
				v, _ := strconv.ParseInt(s, n, 64)
				chk(base, s, v)
				v, _ = strconv.ParseInt(s+"0", n, 64)
				chk(base, s+"0", v)
			}
		}
	}
}

// faultText writes a text with injected definition and semantic faults.
func faultText(c *Case) string {
	p := gen.RandomProfile(c.Rng)
	p.Core = c.Rng.IntN(2) == 0
	p.Undef = c.Rng.IntN(4) == 0
	p.BadRep = c.Rng.IntN(4) == 0
	p.Prose = c.Rng.IntN(4) == 0
	p.Rules = 1 + c.Rng.IntN(4)
	g := gen.Random(c.Rng, p)
	if c.Rng.IntN(3) == 0 {
		r := g.Rules[c.Rng.IntN(len(g.Rules))]
		e := numNear(c)
		if c.Rng.IntN(2) == 0 {
			e = &ref.Elem{Kind: []ref.Kind{ref.KGroup, ref.KOption}[c.Rng.IntN(2)], Alt: &ref.Alt{Concats: []*ref.Concat{{Reps: []*ref.Rep{{Min: 1, Max: 1, Elem: e}}}}}}
		}
		r.Alt.Concats = append(r.Alt.Concats, &ref.Concat{Reps: []*ref.Rep{{Min: 1, Max: 1, Elem: e}}})
	}
	n := &ref.Noise{Rng: c.Rng, Level: 1}
	ds := n.Split(g)
	term := func() *ref.Alt {
		return &ref.Alt{Concats: []*ref.Concat{{Reps: []*ref.Rep{{Min: 1, Max: 1, Elem: &ref.Elem{Kind: ref.KStr, Str: "zz"}}}}}}
	}
	ins := func(d ref.Def) {
		i := c.Rng.IntN(len(ds) + 1)
		ds = append(ds[:i], append([]ref.Def{d}, ds[i:]...)...)
	}
	for m := c.Rng.IntN(3); m > 0; m-- {
		switch c.Rng.IntN(5) {
		case 0: // duplicate
			ins(ref.Def{Name: spellAny(c, g.Rules[c.Rng.IntN(len(g.Rules))].Name), Alt: term()})
		case 1: // increment, maybe too early
			ins(ref.Def{Name: spellAny(c, g.Rules[c.Rng.IntN(len(g.Rules))].Name), Incr: true, Alt: term()})
		case 2: // increment of nothing
			ins(ref.Def{Name: "unknown-one", Incr: true, Alt: term()})
		case 3: // core
			ins(ref.Def{Name: spellAny(c, ref.CoreNames[c.Rng.IntN(len(ref.CoreNames))]), Alt: term()})
		case 4:
			ins(ref.Def{Name: spellAny(c, ref.CoreNames[c.Rng.IntN(len(ref.CoreNames))]), Incr: true, Alt: term()})
		}
	}
	return n.Defs(ds)
}

func c17(c *Case) {
	if c.Idx < 1600 {
		sweepBounds(c)
	}
	for k := 0; k < 6; k++ {
		text := faultText(c)
		defs, perr := ref.ParseText([]byte(text))
		if perr != nil {
			panic(perr)
		}
		for o := 0; o < 4; o++ {
			validate, redef := o&1 == 0, o&2 != 0
			kinds := map[string]bool{}
			// every definition offence, skipping offenders one by one
			rest := defs
			var model *ref.Grammar
			for {
				m, e := ref.Build(rest, redef)
				if e == nil {
					model = m
					break
				}
				kinds[e.Kind] = true
				rest = dropOffender(rest, redef)
			}
			conflict := len(kinds) > 0
			sem := model.SemKinds()
			if validate {
				for s := range sem {
					kinds[s] = true
				}
			}
			var opts []goabnf.ABNFOption
			if !validate || c.Rng.IntN(2) == 0 {
				opts = append(opts, goabnf.WithValidation(validate))
			}
			if redef || c.Rng.IntN(2) == 0 {
				opts = append(opts, goabnf.WithRedefineCoreRules(redef))
			}
			c.Note("ParseABNF(validate=%v redefine=%v, %q)", validate, redef, text)
			lg, err := goabnf.ParseABNF([]byte(text), opts...)
			c.Eval(len(kinds) > 0, fmt.Sprint(o), text)
			key := fmt.Sprintf("ParseABNF validate=%v redefine=%v %q", validate, redef, text)
			if err != nil {
				k := semFail(err)
				if !kinds[k] {
					c.Fail(key, "ParseABNF(validate=%v redefine=%v) fails with %v (%s); faults of the text: %v\n%s", validate, redef, err, k, sortedKeys(kinds), text)
				}
				c.Inc("refused_" + k)
				continue
			}
			if len(kinds) > 0 {
				c.Fail(key, "ParseABNF(validate=%v redefine=%v) accepts a text with faults %v\n%s", validate, redef, sortedKeys(kinds), text)
				continue
			}
			c.Inc("accepted")
			if conflict {
				continue
			}
			if got, e := bridge.Lift(lg); e != nil {
				c.Fail(key, "ill-formed grammar: %v\n%s", e, text)
			} else if d := ref.Diff(model, got); d != "" {
				c.Fail(key, "grammar differs from its text: %s\n%s", d, text)
			} else if redef && c.Rng.IntN(2) == 0 {
				r := model.Rules[c.Rng.IntN(len(model.Rules))]
				for _, in := range gen.Inputs(c.Rng, model, r.Name, 6, 6) {
					ok, err := lg.IsValid(r.Name, in)
					if want := ref.Member(model, r.Name, in); err != nil || ok != want {
						c.Fail(key, "redefinition not honoured: IsValid(%q,%q)=%v,%v want %v\n%s", r.Name, in, ok, err, want, text)
					}
				}
				// core rules of other grammars stay what they are
				for _, cn := range []string{"ALPHA", "BIT", "WSP", "HEXDIG", "CRLF"} {
					if ok, _ := goabnf.ABNF.IsValid(cn, []byte("zz")); ok {
						c.Fail("core-leak "+text, "after parsing a grammar redefining core rules, core rule %s of another grammar accepts \"zz\"\n%s", cn, text)
					}
				}
			}
			// semantic validation of the unvalidated grammar
			if !validate {
				err := goabnf.SemvalABNF(lg)
				if (err == nil) != (len(sem) == 0) || err != nil && !sem[semFail(err)] {
					c.Fail("Semval "+key, "SemvalABNF: %v, faults of the grammar: %v\n%s", err, sortedKeys(sem), text)
				}
			}
		}
		c.Sample("%q", text)
	}
}

// dropOffender removes the first definition Build refuses.
func dropOffender(defs []ref.Def, redef bool) []ref.Def {
	for i := range defs {
		if _, e := ref.Build(defs[:i+1], redef); e != nil {
			return append(append([]ref.Def{}, defs[:i]...), defs[i+1:]...)
		}
	}
	panic("no offender")
}

func spellAny(c *Case, s string) string {
	b := []byte(s)
	for i := range b {
		if (b[i]|32) >= 'a' && (b[i]|32) <= 'z' && c.Rng.IntN(2) == 0 {
			b[i] ^= 32
		}
	}
	return string(b)
}

// ------------------------------------------------------------ dependencies

func c18(c *Case) {
	for k := 0; k < 6; k++ {
		var w *Work
		if c.Idx < len(gen.Directed) && k == 0 {
			w = directed(c, gen.Directed[c.Idx])
		} else {
			p := gen.RandomProfile(c.Rng)
			p.Rules = 1 + c.Rng.IntN(9)
			p.DAG = c.Rng.IntN(2) == 0
			p.MaxCat, p.MaxAlts = 1+c.Rng.IntN(2), 1+c.Rng.IntN(2)
			p.Core = c.Rng.IntN(2) == 0
			p.Undef = c.Rng.IntN(4) == 0
			p.Prose = c.Rng.IntN(5) == 0
			g := gen.Random(c.Rng, p)
			if c.Rng.IntN(3) == 0 { // one back edge in a DAG
				i := c.Rng.IntN(len(g.Rules))
				j := c.Rng.IntN(len(g.Rules))
				g.Rules[i].Alt.Concats = append(g.Rules[i].Alt.Concats, &ref.Concat{Reps: []*ref.Rep{{Min: 1, Max: 1, Elem: &ref.Elem{Kind: ref.KRule, Name: spellAny(c, g.Rules[j].Name)}}}})
			}
			if c.Rng.IntN(5) == 0 {
				renameCore(c, g)
			}
			w = build(c, g, g.Rules[0].Name)
		}
		if w == nil {
			continue
		}
		anyCycle := false
		for _, r := range w.R.Rules {
			if w.R.Reach(r.Name)[ref.Lower(r.Name)] {
				anyCycle = true
			}
		}
		reps := 12
		for i := 0; i < reps; i++ {
			c.Note("IsDAG of %s", w.Text)
			if got := w.L.IsDAG(); got == anyCycle {
				c.Fail("IsDAG "+w.Text, "IsDAG = %v on call %d, some rule reaches itself: %v\n%s", got, i+1, anyCycle, w.Text)
				break
			}
			c.Eval(true, "dag", w.Text)
			for _, r := range w.R.Rules {
				want := w.R.ContainsCycle(r.Name)
				n := spellAny(c, r.Name)
				got, err := w.L.RuleContainsCycle(n)
				c.Eval(true, "cycle", w.Text, r.Name)
				if err != nil || got != want {
					c.Fail("RuleContainsCycle "+w.Text+" "+r.Name, "RuleContainsCycle(%q) = %v, %v on call %d, want %v\n%s", n, got, err, i+1, want, w.Text)
				}
				if want {
					c.Inc("cyclic")
				} else {
					c.Inc("acyclic")
				}
			}
		}
		if _, err := w.L.RuleContainsCycle("no-such-rule"); err == nil {
			c.Fail("RuleContainsCycle-unknown", "RuleContainsCycle of an unknown rule gives no error")
		}
		dg := w.L.DependencyGraph()
		for _, r := range w.R.Rules {
			nd := dg[ref.Lower(r.Name)]
			if nd == nil {
				c.Fail("DependencyGraph "+w.Text, "DependencyGraph lacks rule %s\n%s", r.Name, w.Text)
				continue
			}
			want := ref.Deps(r)
			got := map[string]bool{}
			for _, d := range nd.Dependencies {
				if got[ref.Lower(d)] {
					c.Fail("DependencyGraph "+w.Text+" "+r.Name, "DependencyGraph lists %s twice for %s\n%s", d, r.Name, w.Text)
				}
				got[ref.Lower(d)] = true
			}
			c.Eval(len(want) > 0, "deps", w.Text, r.Name)
			if strings.Join(sortedKeys(got), " ") != strings.Join(sortedKeys(want), " ") || !strings.EqualFold(nd.Rulename, r.Name) {
				c.Fail("DependencyGraph "+w.Text+" "+r.Name, "DependencyGraph says %s depends on %v, its text says %v\n%s", nd.Rulename, sortedKeys(got), sortedKeys(want), w.Text)
			}
		}
		for k, nd := range dg {
			if w.R.Find(nd.Rulename) == nil || k != ref.Lower(nd.Rulename) {
				c.Fail("DependencyGraph-extra "+w.Text, "DependencyGraph has %q -> %q\n%s", k, nd.Rulename, w.Text)
			}
		}
		// the mermaid rendering has one arrow per dependency
		arrows := map[string]bool{}
		for _, l := range strings.Split(dg.Mermaid(), "\n") {
			if a, b, ok := strings.Cut(strings.TrimSpace(l), "-->"); ok {
				arrows[ref.Lower(strings.TrimSpace(a))+">"+ref.Lower(strings.TrimSpace(b))] = true
			}
		}
		for _, r := range w.R.Rules {
			for d := range ref.Deps(r) {
				if !arrows[ref.Lower(r.Name)+">"+ref.Lower(d)] {
					c.Fail("Mermaid "+w.Text, "Mermaid lacks %s --> %s\n%s", r.Name, d, w.Text)
				}
			}
		}
		c.Sample("%s cycle %v", w.Text, anyCycle)
	}
}

// ------------------------------------------------------------ diagnostics

var charNames = map[byte]string{0: "/NUL/", 9: "/HTAB/TAB/HT/", 10: "/LF/NL/", 13: "/CR/", 32: "/SP/SPACE/", 127: "/DEL/", 27: "/ESC/", 11: "/VT/", 12: "/FF/", 8: "/BS/", 7: "/BEL/", '"': "/DQUOTE/"}

func checkParseError(c *Case, what string, in []byte, pe *goabnf.ParseError, far int, exp []string, ctx string) {
	key := "ParseError " + what
	if pe == nil {
		c.Fail(key, "no ParseError for underivable %q\n%s", in, ctx)
		return
	}
	if !errors.Is(pe, goabnf.ErrNoSolutionFound) {
		c.Fail(key, "ParseError does not unwrap to ErrNoSolutionFound")
	}
	if pe.Offset != far {
		c.Fail(key, "ParseError of %q: Offset %d, furthest position reached is %d\n%s", in, pe.Offset, far, ctx)
		return
	}
	line := 1 + bytes.Count(in[:far], []byte("\n"))
	col := far - (bytes.LastIndexByte(in[:far], '\n') + 1) + 1
	if pe.Line != line || pe.Col != col {
		c.Fail(key, "ParseError of %q at offset %d: line %d column %d, want %d %d\n%s", in, far, pe.Line, pe.Col, line, col, ctx)
	}
	if exp != nil || len(pe.Expected) > 0 {
		if strings.Join(exp, "\x00") != strings.Join(pe.Expected, "\x00") {
			c.Fail(key, "ParseError of %q at offset %d: Expected %q, terminals tried there: %q\n%s", in, far, pe.Expected, exp, ctx)
		}
	}
	if far >= len(in) {
		if pe.Found != "EOF" {
			c.Fail(key, "ParseError of %q at the end: Found %q\n%s", in, pe.Found, ctx)
		}
	} else {
		// a printable character is shown quoted, any byte in hexadecimal
		// notation, possibly with the name of the character
		b := in[far]
		hex := fmt.Sprintf("%%x%02X", b)
		name, isHex := strings.CutPrefix(pe.Found, hex)
		if isHex && name != "" {
			in, a := strings.CutPrefix(name, " (")
			in2, z := strings.CutSuffix(in, ")")
			isHex = a && z && strings.Contains(charNames[b], "/"+in2+"/")
		}
		if !isHex && !(b > 0x20 && b < 0x7F && pe.Found == fmt.Sprintf("%q", string(rune(b)))) {
			c.Fail(key, "ParseError of %q at offset %d: Found %q, the byte is %s\n%s", in, far, pe.Found, hex, ctx)
		}
		bare := b == '\n' && (far == 0 || in[far-1] != '\r')
		if bare != (pe.Hint != "") {
			c.Fail(key, "ParseError of %q at offset %d: Hint %q, bare LF there: %v", in, far, pe.Hint, bare)
		}
	}
	msg := pe.Error()
	if !strings.Contains(msg, fmt.Sprintf("line %d", line)) || !strings.Contains(msg, fmt.Sprintf("offset %d", far)) {
		c.Fail(key, "message %q does not carry the position %d:%d (%d)", msg, line, col, far)
	}
}

var metaRef = func() *ref.Grammar { return ref.MustGrammar(ref.MetaText) }

func c22(c *Case) {
	if c.Idx%4 == 3 { // ABNF texts through ParseABNF
		g := metaRef()
		ts := texts(c)
		if c.Idx == 3 {
			ts = directedTexts
		} else if c.Idx/4-1 < len(holes) {
			ts = sweep(c.Idx/4 - 1)
		}
		for _, t := range ts {
			if _, perr := ref.ParseText([]byte(t)); perr == nil || len(t) > 220 {
				continue
			}
			in := []byte(t)
			_, err := goabnf.ParseABNF(in)
			var pe *goabnf.ParseError
			if !errors.As(err, &pe) {
				c.Fail("ParseABNF-err "+t, "ParseABNF(%q): error %v (%T) is no ParseError", t, err, err)
				continue
			}
			far, _ := ref.Attempts(ref.NewRec(g, in), "rulelist")
			c.Eval(true, "abnf", t)
			c.Inc("abnf_texts")
			checkParseError(c, "ParseABNF "+t, in, pe, far, pe.Expected, "")
			if !sort.StringsAreSorted(pe.Expected) {
				c.Fail("sorted "+t, "Expected is not sorted: %q", pe.Expected)
			}
		}
		return
	}
	ws, kind := engineWork(c, true)
	for _, w := range ws {
		if nullableBounded(w.R, w.Root, 40) {
			continue
		}
		nin := 16
		if kind != "random" {
			nin = 30
		}
		al := w.Inputs(c, nin, 9)
		for k := 0; k < 3; k++ { // words with line breaks and trailing garbage
			x := al[c.Rng.IntN(len(al))]
			al = append(al, append(append([]byte{}, x...), []string{"\n", "\r\nq", "zz\n\nz"}[k]...))
		}
		for _, in := range al {
			rec := ref.NewRec(w.R, in)
			valid := rec.Has(w.R.Find(w.Root), 0, len(in))
			c.Note("ParseError(%q,%q) of %s", w.Root, in, w.Text)
			f, err := goabnf.ParseForest(in, w.L, w.Root)
			if err != nil {
				c.Fail("ParseForest-err "+w.Key(string(in)), "ParseForest: %v", err)
				continue
			}
			pe := f.ParseError()
			if valid {
				c.Inc("valid")
				if pe != nil {
					c.Fail("ParseError-valid "+w.Key(string(in)), "ParseError %v for derivable %q\n%s", pe, in, w.Text)
				}
				continue
			}
			far, exp := ref.Attempts(rec, w.Root)
			c.Eval(far > 0, w.Text, w.Root, string(in))
			if far == len(in) {
				c.Inc("at_eof")
			} else {
				c.Inc("inside")
			}
			if len(exp) == 0 {
				c.Inc("trailing_garbage")
			}
			checkParseError(c, w.Key(string(in)), in, pe, far, exp, w.Text)
		}
		c.Sample("%s root %s (%s)", w.Text, w.Root, kind)
	}
}

func init() {
	register(&Prop{ID: "C14", Count: tiers(6400, 40000), Run: c14, Rule: "ABNF texts: directed edge cases, the repository's grammars, noisy renderings of random grammars, byte and token mutations, truncations and token soup; every text is distinct input"})
	register(&Prop{ID: "C15", Count: tiers(4000, 24000), Run: c15, Rule: "well-formed texts with noisy whitespace, comments imitating syntax, folding, spellings, increments; non-trivial: at least one rule, distinct by text and entry point"})
	register(&Prop{ID: "C16", Count: tiers(4000, 24000), Run: c16, Rule: "grammars obtained from noisy texts, printed by String and PrettyPrint, read back by an independent parser and by the library; distinct by text and printer"})
	register(&Prop{ID: "C17", Count: tiers(3200, 24000), Run: c17, Rule: "texts with injected duplicate, early, unknown and core (re)definitions, undefined references, impossible bounds and numerals around U+10FFFF, under all four option settings; non-trivial: a text with at least one fault"})
	register(&Prop{ID: "C18", Count: tiers(12000, 100000), Run: c18, Rule: "random dependency graphs (DAGs, DAGs with one back edge, dense), each query repeated 12 times (map iteration order is the schedule); distinct by grammar, rule and query"})
	register(&Prop{ID: "C22", Count: tiers(5000, 30000), Run: c22, Rule: "underivable inputs of directed and random grammars and malformed ABNF texts, compared with an independent top-down exploration of every attempt; non-trivial: something was consumed"})
}

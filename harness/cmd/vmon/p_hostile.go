package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"

	goabnf "github.com/pandatix/go-abnf"

	"verif/bridge"
	"verif/gen"
)

// ------------------------------------------------------- C21 no panic, no hang

// hostileTexts are grammars aimed at crashes: nesting, chains, widths, absurd
// numbers, redefined and recursive core rules.
func hostileTexts() []string {
	out := []string{
		`DIGIT = ALPHA|ALPHA = DIGIT|s = DIGIT`, `ALPHA = s|s = ALPHA / "a"`, `CRLF = *CRLF|s = CRLF`, `WSP = LWSP|s = LWSP`,
		`s = 99999999999999999999"a"`, `s = 9223372036854775807"a"`, `s = 9223372036854775807*9223372036854775807("a" / "b")`,
		`s = *9223372036854775807""`, `s = 9223372036854775807(s)`, `s = 9223372036854775806*[s]`, `s = 2*9223372036854775807(*s)`,
		`s = %x0-FFFFFFFFFFFFFFFF`, `s = %d18446744073709551615`, `s = %d18446744073709551616`, `s = %b1111111111111111111111111111111111111111111111111111111111111111`,
		`s = %x7FFFFFFF-80000000`, `s = %x80000000-7FFFFFFF`, `s = %x0.0.0.0.FFFFFFFF`, `s = %xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF-0`, `s = %x10FFFF-110000`,
		`s = 5*2(%xD800-DFFF <p> nope)`, `s = 0nope`, `s = 0<p> "a"`, `s = *0s`, `s = 0s`, `s = 1*0s / s`, `s = 0*0(5*2s)`,
		`s = [[[[[[]]]]]]`, `s = ()`, `s = [[[[[["a"]]]]]]`, `s = ((((((s))))))`, `s = [s] [s] [s] [s] / *s *s`,
		`s = <>`, `s = *<>`, `s = "" / "" / ""`, `s = *(*(*(*(*(*"")))))`, `s = 1*(1*(1*(1*(1*s))))`, `s = 3(3(3(3(3(3(3"a"))))))`,
		`s = %s""`, `s = 1*%s""`, `s = *"" s *""`, `s = s s s s s s / ""`, `s = a a|a = b b|b = c c|c = d d|d = e e|e = f f|f = "" / s`,
		`s-1 = S-2|s-2 = s-1 / "a"`, `a = a|A = b`, `s = "` + strings.Repeat("x", 600) + `"`, `s = %x61` + strings.Repeat(".61", 150),
		`s = <` + strings.Repeat("p", 500) + `>`, `s = ` + strings.Repeat(`"a" `, 80) + `"a"`, `s = ` + strings.Repeat(`"a" / `, 80) + `"a"`,
		`s = ` + strings.Repeat(`["a"] `, 24) + `"b"`, `s = ` + strings.Repeat(`*"a" `, 12) + `"b"`,
		`s = %x61-7A` + strings.Repeat(` / %x61-7A`, 60), `s = *%x0-10FFFF *%x0-10FFFF %x0-10FFFF`, `s = 256(%x0-10FFFF / "a")`, `s = 257"a"`, `s = 255*256("a" / "b")`,
	}
	for _, n := range []int{20, 60} {
		out = append(out, `s = `+strings.Repeat("(", n)+`"a"`+strings.Repeat(")", n))
		out = append(out, `s = `+strings.Repeat("[", n)+`s`+strings.Repeat("]", n))
		out = append(out, `s = `+strings.Repeat("*(", n)+`"a"`+strings.Repeat(")", n))
		// an explicit tree, and the number of trees, double (in size) at each level
		out = append(out, `s = `+strings.Repeat("1*2[", n/6)+`"a" / s`+strings.Repeat("]", n/6))
	}
	var ch strings.Builder
	for i := 0; i < 60; i++ {
		fmt.Fprintf(&ch, "r%d = r%d / \"a\" r%d|", i, i+1, i+1)
	}
	out = append(out, "s = r0|"+ch.String()+"r60 = \"z\"", "s = r0|"+ch.String()+"r60 = s", "s = r0|"+ch.String()+"r60 = nope")
	return out
}

var oddRules = []string{"", "s", "S", " s", "s ", "nope", "\x00", "s\x00", "é", "ALPHA", "alpha", "LWSP", "crlf", "r1", strings.Repeat("s", 5000), "s\r\n", "<p>", "\xff\xfe", "%s", "rulelist", "K", "ſ"}

func oddInt(c *Case) int {
	l := []int{0, 1, -1, 2, 3, 7, 64, 1000, math.MaxInt, math.MinInt, math.MaxInt32, -5}
	return l[c.Rng.IntN(len(l))]
}

func smallOdd(c *Case) int {
	l := []int{0, 1, -1, 2, 3, 7, 64, 300, math.MinInt, -5}
	return l[c.Rng.IntN(len(l))]
}

func oddBytes(c *Case, w *Work, rule string) []byte {
	switch c.Rng.IntN(8) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		b := make([]byte, c.Rng.IntN(30))
		for i := range b {
			b[i] = byte(c.Rng.Uint32())
		}
		return b
	case 3:
		return []byte(strings.Repeat("a", 1+c.Rng.IntN(60)))
	case 4:
		return []byte{0xf4, 0x8f, 0xbf, 0xbf, 0xed, 0xa0, 0x80, 0xc3}
	case 5:
		return []byte("\x00\x00\ufffd\xff")
	}
	if w.R.Find(rule) == nil {
		return []byte("a")
	}
	ins := gen.Inputs(c.Rng, w.R, rule, 2, 8)
	if len(ins) == 0 {
		return []byte("ab")
	}
	return ins[c.Rng.IntN(len(ins))]
}

// optionOps call the operations with whatever option values.
var optionOps = []struct {
	name string
	prod bool
	run  func(c *Case, x opArgs) (desc string, res bool, err error)
}{
	{"ParseForest-options", false, func(c *Case, x opArgs) (string, bool, error) {
		m, s := oddInt(c), oddInt(c)
		if m <= 0 || m > opForest {
			m = 1 + c.Rng.IntN(opForest)
		}
		f, err := goabnf.ParseForest(x.in, x.g, x.rule, goabnf.WithMaxForestNodes(m), goabnf.WithMaxSlots(s))
		if f != nil {
			f.Tree()
			f.NumTrees()
			f.Ambiguous()
			if e := f.ParseError(); e != nil {
				_ = e.Error()
			}
		}
		return fmt.Sprint("nodes ", m, " slots ", s), f != nil, err
	}},
	{"ParseBSR-options", false, func(c *Case, x opArgs) (string, bool, error) {
		m, s := oddInt(c), oddInt(c)
		if m <= 0 || m > opForest {
			m = 1 + c.Rng.IntN(opForest)
		}
		f, err := goabnf.ParseBSR(x.in, x.g, x.rule, goabnf.WithMaxForestNodes(m), goabnf.WithMaxSlots(s))
		if f != nil {
			f.Tree()
			f.NumTrees()
			f.Ambiguous()
		}
		return fmt.Sprint("nodes ", m, " slots ", s), f != nil, err
	}},
	{"Regex-options", false, func(c *Case, x opArgs) (string, bool, error) {
		m := oddInt(c)
		if m <= 0 || m > 1<<16 {
			m = 1 + c.Rng.IntN(1<<14)
		}
		re, err := x.g.Regex(x.rule, goabnf.WithMaxRegexLen(m))
		return fmt.Sprint(m), err == nil || re != "", err
	}},
	{"Generate-options", true, func(c *Case, x opArgs) (string, bool, error) {
		r, t := smallOdd(c), smallOdd(c)
		b, err := x.g.Generate([]int64{0, -1, math.MaxInt64, math.MinInt64, x.seed}[c.Rng.IntN(5)], x.rule, goabnf.WithRepMax(r), goabnf.WithThreshold(t))
		return fmt.Sprint(r, " ", t), err == nil || b != nil, err
	}},
	{"ASTGenerator-options", true, func(c *Case, x opArgs) (string, bool, error) {
		d, l, r := smallOdd(c), smallOdd(c)%200, smallOdd(c)
		if c.Rng.IntN(3) == 0 {
			d = math.MaxInt
		}
		ag, err := goabnf.NewASTGenerator(x.g, x.rule, goabnf.WithMaxDepth(d), goabnf.WithMaxLen(l), goabnf.WithMaxRepeat(r))
		if ag != nil && err == nil {
			ag.Generate(x.tape)
			ag.Generate(nil)
			ag.GenerateRand(rand.New(rand.NewSource(x.seed)))
		}
		return fmt.Sprint(d, " ", l, " ", r), ag != nil, err
	}},
	{"TransitionGraph-options", false, func(c *Case, x opArgs) (string, bool, error) {
		m, t := oddInt(c), oddInt(c)
		if m <= 0 || m > 300 {
			m = 1 + c.Rng.IntN(150)
		}
		k := c.Rng.IntN(8)
		tg, err := x.g.TransitionGraph(x.rule, goabnf.WithMaxNodes(m), goabnf.WithRepetitionThreshold(t), goabnf.WithDeflateRules(k&1 != 0), goabnf.WithDeflateCharVals(k&2 != 0), goabnf.WithDeflateNumVals(k&4 != 0))
		desc := fmt.Sprint("nodes ", m, " threshold ", t, " flags ", k)
		if tg == nil || err != nil {
			return desc, tg != nil, err
		}
		_ = tg.ToMermaid()
		// misuse and use of readers; all-trails mode is only sampled
		for _, mode := range []goabnf.CoverageMode{goabnf.CoverageCompact, goabnf.CoverageAllTrails, goabnf.CoverageMode(oddInt(c))} {
			if v, err := viewTG(tg); err != nil || !v.narrow() || mode != goabnf.CoverageCompact && v.shortWalks(v.usable(), 40) < 40 || k&1 == 0 {
				continue
			}
			rd := tg.Reader(goabnf.WithCoverageMode(mode))
			if c.Rng.IntN(2) == 0 {
				_ = rd.Scan()
			}
			for i := 0; i < 40 && rd.Next(); i++ {
				_ = rd.Scan()
				if c.Rng.IntN(4) == 0 {
					_ = rd.Scan()
				}
			}
			rd.Next()
			_ = rd.Scan()
		}
		opts := []goabnf.GenOption{goabnf.WithMaxLength(smallOdd(c)), goabnf.WithMaxReps(smallOdd(c)), goabnf.WithMaxSteps(smallOdd(c))}
		if c.Rng.IntN(2) == 0 {
			opts = append(opts, goabnf.WithStableAddressing())
		}
		if c.Rng.IntN(3) == 0 {
			opts = opts[:1]
		}
		ge, gerr := goabnf.NewGenerator(tg, opts...)
		if gerr != nil {
			return desc, true, nil
		}
		ge.Generate(x.tape)
		ge.Generate(nil)
		ge.GenerateRand(rand.New(rand.NewSource(x.seed)))
		ge.NearMiss(x.tape)
		ge.NearMiss(nil)
		ge.NearMissRand(rand.New(rand.NewSource(x.seed)))
		ge.ExpectedNext(x.in)
		ge.ExpectedNext(nil)
		ge.ExpectedNext(x.tape)
		return desc, true, nil
	}},
	{"GenerateGoParser-options", false, func(c *Case, x opArgs) (string, bool, error) {
		p := []string{"", "p", "main", "type", "é", "a b", "\x00", "1x", "p\n", "func", "_"}[c.Rng.IntN(11)]
		_, err := goabnf.GenerateGoParser(x.g, x.rule, p)
		return fmt.Sprintf("package %q", p), err == nil, err // the unformatted source may come along with the error
	}},
	{"Parse", false, func(c *Case, x opArgs) (string, bool, error) {
		if len(x.in) > 12 {
			x.in = x.in[:12]
		}
		// no budget: only where none is needed
		r, err := bridge.Lift(x.g)
		if err != nil || nullableBounded(r, x.rule, 16) || r.Find(x.rule) == nil || len(x.rule) > 100 {
			return "", true, nil
		}
		f, err := goabnf.Parse(x.in, x.g, x.rule)
		return "", f != nil, err
	}},
}

func c21(c *Case) {
	hts := hostileTexts()
	var ws []*Work
	kind := "hostile"
	switch {
	case c.Idx < len(hts):
		t := crlf(hts[c.Idx])
		c.Note("ParseABNF(%q)", t)
		if w := viaText(t, ""); w != nil {
			w.Root = "s"
			ws = append(ws, w)
		} else {
			c.Inc("text_refused")
		}
		c21text(c, []byte(t))
	case c.Idx%3 == 0:
		c21garbage(c)
		return
	default:
		cc := *c
		cc.Idx = (c.Idx - len(hts)) * 2 / 3
		if cc.Idx%2 == 0 {
			cc.Idx /= 2
			ws, kind = engineWork(&cc, true)
		} else {
			cc.Idx /= 2
			p := gen.RandomProfile(c.Rng)
			p.Prose, p.Undef, p.BadRep, p.BadNum, p.Huge = c.Rng.IntN(2) == 0, c.Rng.IntN(2) == 0, c.Rng.IntN(2) == 0, c.Rng.IntN(2) == 0, c.Rng.IntN(2) == 0
			p.DAG = c.Rng.IntN(2) == 0
			r := gen.Random(c.Rng, p)
			if w := build(c, r, r.Rules[0].Name); w != nil {
				ws = append(ws, w)
			}
			kind = "hostile-random"
		}
	}
	for _, w := range ws {
		c.Inc("grammars " + kind)
		c.Sample("%s", w.Text)
		c.Safe("semantics "+w.Text, func() {
			_ = goabnf.SemvalABNF(w.L)
			_ = w.L.String()
			_ = w.L.PrettyPrint()
			_ = w.L.IsDAG()
			_ = w.L.DependencyGraph().Mermaid()
		})
		for _, o := range ops {
			n := 1
			if o.rule {
				n = 2
			}
			for k := 0; k < n; k++ {
				rule := w.Root
				if k == 1 {
					rule = oddRules[c.Rng.IntN(len(oddRules))]
				}
				if o.producing() && longWords(w.R, rule) {
					c.Inc("skipped_long_words")
					continue
				}
				in := oddBytes(c, w, rule)
				tp := oddBytes(c, w, rule)
				seed := c.Rng.Int64()
				c.Safe(fmt.Sprintf("%s(%q, %q) tape %q seed %d of %s", o.name, rule, in, tp, seed, w.Text), func() {
					d := o.run(opArgs{g: w.L, rule: rule, in: in, tape: tp, seed: seed})
					c.Inc("calls " + o.name)
					c.Eval(!strings.Contains(d, "ErrRuleNotFound"), o.name, rule, string(in), w.Text)
				})
			}
		}
		for _, o := range optionOps {
			for k := 0; k < 3; k++ {
				rule := w.Root
				if k == 2 {
					rule = oddRules[c.Rng.IntN(len(oddRules))]
				}
				if o.prod && longWords(w.R, rule) {
					continue
				}
				in := oddBytes(c, w, rule)
				tp := oddBytes(c, w, rule)
				c.Safe(fmt.Sprintf("%s(%q, %q) tape %q of %s", o.name, rule, in, tp, w.Text), func() {
					d, res, err := o.run(c, opArgs{g: w.L, rule: rule, in: in, tape: tp, seed: c.Rng.Int64()})
					c.Inc("calls " + o.name)
					c.Eval(err == nil, o.name, rule, string(in), d, w.Text)
					if (err == nil) != res {
						c.Fail("both "+o.name+w.Key(rule), "%s(%q, %q) %s: result %v along with error %v\n%s", o.name, rule, in, d, res, err, w.Text)
					}
				})
			}
		}
	}
}

// c21text: what ParseABNF accepts prints and evaluates without a crash.
func c21text(c *Case, src []byte) {
	for k := 0; k < 4; k++ {
		c.Safe(fmt.Sprintf("ParseABNF(%q) options %d", src, k), func() {
			g, err := goabnf.ParseABNF(src, goabnf.WithValidation(k&1 != 0), goabnf.WithRedefineCoreRules(k&2 != 0))
			c.Inc("calls ParseABNF")
			c.Eval(err == nil, "ParseABNF", string(src))
			if (g == nil) != (err != nil) {
				c.Fail("both ParseABNF "+string(src), "ParseABNF(%q): grammar %v along with error %v", src, g != nil, err)
			}
			if err != nil {
				_ = err.Error()
				return
			}
			c.Inc("texts_accepted")
			_ = g.String()
			_ = g.PrettyPrint()
			_ = goabnf.SemvalABNF(g)
			_ = g.IsDAG()
		})
	}
	c.Safe(fmt.Sprintf("ParseABNF and EvaluateABNF(%q)", src), func() {
		f, err := goabnf.ParseForest(src, goabnf.ABNF, "rulelist", goabnf.WithMaxForestNodes(400000))
		if err != nil {
			return
		}
		g, err := goabnf.EvaluateABNF(src, f)
		if (g == nil) != (err != nil) {
			c.Fail("both EvaluateABNF "+string(src), "EvaluateABNF(%q): grammar %v along with error %v", src, g != nil, err)
		}
	})
}

var abnfBits = []string{"s", "=", "=/", " ", "\t", "\r\n", "\n", "\r", ";", "/", "(", ")", "[", "]", "\"", "\"a\"", "%x", "%d", "%b", "61", "-", ".", "*", "2", "0*3", "99999999999999999999", "<", ">", "%s", "%i", "é", "\x00", "\xff", "ALPHA", "rule-name", "%x61-7A", "%xFFFFFFFFFFFFFFFFF", " = ", "\r\n ", "; c\r\n", "DIGIT =/ \"x\"\r\n"}

func c21garbage(c *Case) {
	for k := 0; k < 12; k++ {
		var b []byte
		switch c.Rng.IntN(4) {
		case 0:
			b = make([]byte, c.Rng.IntN(60))
			for i := range b {
				b[i] = byte(c.Rng.Uint32())
			}
		case 1:
			for i := c.Rng.IntN(30); i >= 0; i-- {
				b = append(b, abnfBits[c.Rng.IntN(len(abnfBits))]...)
			}
		case 2:
			b = append([]byte("s = "), b...)
			for i := c.Rng.IntN(14); i >= 0; i-- {
				b = append(b, abnfBits[c.Rng.IntN(len(abnfBits))]...)
			}
			b = append(b, "\r\n"...)
		default:
			t := texts(c)
			b = []byte(t[c.Rng.IntN(len(t))])
			if len(b) > 500 {
				b = b[:500]
			}
			for i := c.Rng.IntN(4); i > 0 && len(b) > 0; i-- {
				p := c.Rng.IntN(len(b))
				ins := abnfBits[c.Rng.IntN(len(abnfBits))]
				b = append(b[:p:p], append([]byte(ins), b[min(len(b), p+c.Rng.IntN(3)):]...)...)
			}
		}
		c21text(c, b)
		c.Safe(fmt.Sprintf("GenerateGoParserFromABNF(%q)", b), func() {
			src, err := goabnf.GenerateGoParserFromABNF(b, oddRules[c.Rng.IntN(4)], "p", goabnf.WithValidation(c.Rng.IntN(2) == 0))
			if src == nil && err == nil {
				c.Fail("both GenerateGoParserFromABNF "+string(b), "GenerateGoParserFromABNF(%q): source %v along with error %v", b, src != nil, err)
			}
		})
	}
}

func init() {
	register(&Prop{ID: "C21", Count: tiers(6400, 32000), Run: c21, CaseSec: 60,
		Rule:   "every exported operation on hand-made hostile grammars, random unvalidated ones and garbage texts, with odd rule names, byte strings and option values, in processes watched for panics, stack exhaustion (256 MB), 3 GB of memory and 60 s; non-trivial: calls that got past the rule lookup",
		Assume: []string{"on grammars that call for one, the documented budgets are set; rules whose shortest word takes over 20000 symbols or minimum repetitions above 1000 are not produced"}})
}

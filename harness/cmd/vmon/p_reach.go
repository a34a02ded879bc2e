package main

import (
	"bytes"
	"fmt"
	mrand "math/rand"
	"strings"

	goabnf "github.com/pandatix/go-abnf"

	"verif/gen"
	"verif/ref"
)

// ------------------------------------------------------ C28 reach and locality

// drawn draws until every wanted word was seen. The words asked for turn up once
// in a hundred draws or so: after drawsMax without one it is out of reach.
const drawsMax = 30000

func (c *Case) drawn(what, note, text string, want map[string]float64, pmin float64, draw func() []byte) {
	left := map[string]bool{}
	for w, p := range want {
		if p >= pmin {
			left[w] = true
		}
	}
	if len(left) == 0 {
		c.Inc("nothing likely")
		return
	}
	n := len(left)
	for w := range left {
		c.Eval(n > 1, what, text, w)
	}
	what += note
	c.Note("%s of %s", what, text)
	k := 0
	for ; k < drawsMax && len(left) > 0; k++ {
		delete(left, string(draw()))
	}
	c.Inc("reach " + strings.TrimSuffix(what, note))
	c.Add("words reached", n-len(left))
	c.Add("draws", k)
	for w := range left {
		c.Fail("reach "+what+" "+text, "%s: %q, of probability %.4f or so, never came in %d draws\n%s", what, w, want[w], k, text)
		return
	}
}

// walkWords lists the words of the walks of a graph, with their probability
// when every step is drawn evenly.
func (v *tgView) walkWords(pmin float64) (map[string]float64, bool) {
	u := v.usable()
	vs := map[*goabnf.Node][]string{}
	for _, n := range v.nodes {
		if u[n] {
			vs[n], _ = variants(v.elems[n], 400)
		}
	}
	out := map[string]float64{}
	work := 0
	var walk func(n *goabnf.Node, pre string, p float64)
	walk = func(n *goabnf.Node, pre string, p float64) {
		p /= float64(len(vs[n]))
		if work++; p < pmin || work > 20000 {
			return
		}
		var live []*goabnf.Node
		for _, x := range n.Nexts {
			if u[x] {
				live = append(live, x)
			}
		}
		k := float64(len(live))
		for _, s := range vs[n] {
			if v.ends[n] {
				if q := p / (k + 1); q >= pmin {
					out[pre+s] += q
				}
			}
			for _, x := range live {
				if v.ends[n] {
					walk(x, pre+s, p/(k+1))
				} else {
					walk(x, pre+s, p/k)
				}
			}
		}
	}
	k := 0.0
	if v.empty && v.emptyE {
		k++
	}
	for _, e := range v.entries {
		if u[e] {
			k++
		}
	}
	if v.empty && v.emptyE {
		out[""] = 1 / k
	}
	for _, e := range v.entries {
		if u[e] {
			walk(e, "", 1/k)
		}
	}
	return out, work <= 20000
}

// c28wide has a generator pick from many characters.
func c28wide(c *Case) {
	lo := rune([]int{0, 0x41, 0x61, 0x7f, 0x3b1, 0xd7f0, 0x1f600}[c.Rng.IntN(7)])
	span := []int{16, 17, 20, 26, 32, 33, 94, 128, 129, 200, 255, 256, 257, 300, 1000, 4096, 30000, 65535, 65536, 65537, 70000, 300000}[c.Rng.IntN(22)]
	hi := lo
	var all []rune
	for len(all) < span && hi <= ref.MaxRune {
		if ref.ValidScalar(hi) {
			all = append(all, hi)
		}
		hi++
	}
	hi--
	text := []string{"s = %%x%X-%X\r\n", "s = a\r\na = (%%x%x-%x)\r\n"}[c.Rng.IntN(2)]
	text = fmt.Sprintf(text, lo, hi)
	g, err := goabnf.ParseABNF([]byte(text))
	if err != nil {
		c.Fail("reach-parse "+text, "ParseABNF refuses %q: %v", text, err)
		return
	}
	// whole stretches when there are too many to wait for each
	k := min(len(all), 64)
	idx := map[rune]int{}
	for i, r := range all {
		idx[r] = i * k / len(all)
	}
	want := map[string]float64{}
	for i := 0; i < k; i++ {
		want[fmt.Sprint(i)] = 1 / float64(k)
	}
	bucket := func(b []byte) []byte {
		rs := []rune(string(b))
		if len(rs) != 1 {
			return nil
		}
		i, ok := idx[rs[0]]
		if !ok {
			return nil
		}
		return fmt.Append(nil, i)
	}
	c.Inc("wide ranges")
	c28draws(c, g, "s", text, fmt.Sprintf(" stretches of %d", (len(all)+k-1)/k), nil, func(string) (map[string]float64, bool) { return want, true }, bucket)
}

// c28draws runs every generator of a rule against the words it is to reach.
func c28draws(c *Case, g *goabnf.Grammar, root, text, note string, w *Work, words func(who string) (map[string]float64, bool), view func([]byte) []byte) {
	tape := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(c.Rng.Uint32())
		}
		return b
	}
	if want, ok := words("Generate"); ok {
		s := c.Rng.Int64()
		c.drawn("Generate", note, text, want, 0.012, func() []byte {
			s++
			b, err := g.Generate(s, root, goabnf.WithRepMax(3))
			if err != nil {
				return nil
			}
			return view(b)
		})
	}
	if want, ok := words("ASTGenerator"); ok {
		if ag, err := goabnf.NewASTGenerator(g, root, goabnf.WithMaxRepeat(3)); err == nil {
			r := mrand.New(mrand.NewSource(c.Rng.Int64()))
			if c.Rng.IntN(2) == 0 {
				c.drawn("ASTGenerator.GenerateRand", note, text, want, 0.006, func() []byte { return view(ag.GenerateRand(r)) })
			} else {
				c.drawn("ASTGenerator.Generate", note, text, want, 0.006, func() []byte { return view(ag.Generate(tape(200))) })
			}
		}
	}
	if want, ok := words("Generator"); ok {
		f := genFlags(c)
		if w == nil {
			f = tgFlags{true, false, false}
		}
		tg, err := g.TransitionGraph(root, f.opts(goabnf.WithMaxNodes(500))...)
		if err != nil {
			return
		}
		if w != nil {
			v, err := viewTG(tg)
			if err != nil {
				return
			}
			if want, ok = v.walkWords(0.002); !ok {
				c.Inc("too many walks")
				return
			}
		}
		switch c.Rng.IntN(3) {
		case 0:
			gn, err := goabnf.NewGenerator(tg)
			if err == nil {
				r := mrand.New(mrand.NewSource(c.Rng.Int64()))
				c.drawn("Generator.GenerateRand", note, text, want, 0.006, func() []byte { return view(gn.GenerateRand(r)) })
			}
		case 1:
			gn, err := goabnf.NewGenerator(tg)
			if err == nil {
				c.drawn("Generator.Generate", note, text, want, 0.006, func() []byte { return view(gn.Generate(tape(200))) })
			}
		case 2:
			gn, err := goabnf.NewGenerator(tg, goabnf.WithStableAddressing())
			if err == nil {
				c.drawn("Generator.Generate stable", note, text, want, 0.006, func() []byte { return view(gn.Generate(tape(800))) })
			}
		}
	}
}

// c28local edits single bytes of tapes of words made of independent parts.
func c28local(c *Case) {
	wide := c.Rng.IntN(2) == 0
	n := 2 + c.Rng.IntN(6)
	if c.Rng.IntN(8) == 0 {
		n = 70 + c.Rng.IntN(30)
	}
	rg := func() string {
		// never a bar, always several characters
		lo := []int{0x30, 0x41, 0x7d, 0x3b1, 0x4e00}[c.Rng.IntN(5)]
		sp := []int{2, 3, 7, 10}[c.Rng.IntN(4)]
		if lo > 0x7c {
			sp = []int{2, 3, 10, 200, 256}[c.Rng.IntN(5)]
			if wide && c.Rng.IntN(2) == 0 {
				sp = []int{257, 5000, 65536, 70000}[c.Rng.IntN(4)]
			}
		}
		return fmt.Sprintf("%%x%x-%x", lo, lo+sp-1)
	}
	var parts []string
	for k := 0; k < n; k++ {
		var alts []string
		for a := []int{1, 2, 3, 5}[c.Rng.IntN(4)]; a > 0; a-- {
			alts = append(alts, rg())
		}
		if m := len(alts); m == 1 || c.Rng.IntN(3) != 0 {
			parts = append(parts, "("+strings.Join(alts, " / ")+")")
			continue
		}
		// several characters in each alternative
		for i := range alts {
			alts[i] += " " + rg()
		}
		parts = append(parts, "("+strings.Join(alts, " / ")+")")
	}
	text := "s = " + strings.Join(parts, " %x7C ") + "\r\n"
	g, err := goabnf.ParseABNF([]byte(text))
	if err != nil {
		c.Fail("local-parse "+text, "ParseABNF refuses %q: %v", text, err)
		return
	}
	tg, err := g.TransitionGraph("s", goabnf.WithDeflateRules(true))
	if err != nil {
		c.Fail("local-graph "+text, "TransitionGraph refuses %q: %v", text, err)
		return
	}
	gens := map[string]func([]byte) []byte{}
	stable, err1 := goabnf.NewGenerator(tg, goabnf.WithStableAddressing())
	plain, err2 := goabnf.NewGenerator(tg)
	ast, err3 := goabnf.NewASTGenerator(g, "s")
	if err1 != nil || err2 != nil || err3 != nil {
		c.Fail("local-new "+text, "no generator: %v, %v, %v\n%s", err1, err2, err3, text)
		return
	}
	gens["Generator with stable addressing"] = stable.Generate
	if !wide {
		gens["Generator"], gens["ASTGenerator"] = plain.Generate, ast.Generate
	}
	for who, f := range gens {
		for k := 0; k < 12; k++ {
			tape := make([]byte, c.Rng.IntN(16*n+8))
			for i := range tape {
				tape[i] = byte(c.Rng.Uint32())
			}
			c.Note("%s on %q of %s", who, tape, text)
			a := bytes.Split(f(tape), []byte("|"))
			if len(a) != n {
				continue // C09 and C08 see to that
			}
			for j := 0; j < 8 && len(tape) > 0; j++ {
				t2 := bytes.Clone(tape)
				i := c.Rng.IntN(len(t2))
				t2[i] = byte(c.Rng.Uint32())
				b := bytes.Split(f(t2), []byte("|"))
				c.Eval(true, "local", who, text, string(t2))
				c.Inc("single-byte edits")
				diff := 0
				for x := range a {
					if x >= len(b) || !bytes.Equal(a[x], b[x]) {
						diff++
					}
				}
				if diff == 1 {
					c.Inc("edits that show")
				}
				if diff > 1 {
					c.Fail("local "+who+" "+text, "%s: changing byte %d of %q to %#x changes %d parts: %q, then %q\n%s", who, i, tape, t2[i], diff, a, b, text)
					return
				}
			}
		}
	}
}

var reachShapes = []string{
	`s = "a" / "b" / "c" / "d" / "e" / "f" / "g"`, `s = "GET" / %s"PUT"`, `s = "Ab1" ["Z"]`, `s = *"-" 1*2"+" 2"!"`, `s = %x61-7A`, `s = ALPHA`, `s = HEXDIG`, `s = VCHAR`, `s = BIT DIGIT`,
	`s = "(" s ")" / "x"`, `s = ["a"] ["b"] ["c"]`, `s = e / s "+" e|e = "1" / "(" s ")"`, `s = *3("a" / ["b"])`, `s = 2*4%x30-32`, `s = a / b|a = *1b "x"|b = "y" / "" / *2"z"`, `s = %d945-960 / %xE9`,
	`s = %x41.42.43 / %x41-43 %x44`, `s = 3"a" / 4*"b" / *3"c"`, `s = OCTET`, `s = CHAR`, `s = CTL / WSP`, `s = 1*("a" / "B")`, `s = %xFF-10F`, `s = %xD7FE-E001`,
}

func c28(c *Case) {
	switch {
	case c.Idx%10 == 7:
		c28wide(c)
		return
	case c.Idx%10 == 3:
		c28local(c)
		return
	}
	var w *Work
	if c.Idx < 10*len(reachShapes) {
		w = directed(c, reachShapes[c.Idx/10])
	} else {
		p := gen.RandomProfile(c.Rng)
		p.Amp = gen.AmpNone
		p.DAG = c.Rng.IntN(2) == 0
		p.Rules = 1 + c.Rng.IntN(3)
		p.Depth, p.MaxAlts, p.MaxCat = min(p.Depth, 2), min(max(p.MaxAlts, 1), 4), min(max(p.MaxCat, 1), 2)
		r := gen.Random(c.Rng, p)
		w = build(c, r, r.Rules[0].Name)
	}
	if w == nil {
		return
	}
	c28draws(c, w.L, w.Root, w.Text, "", w, func(who string) (map[string]float64, bool) {
		switch who {
		case "Generate":
			return ref.Likely(w.R, w.Root, func(r *ref.Rep) int {
				if r.Max == ref.Inf {
					return max(r.Min, 3)
				}
				return r.Max
			}, 0.002)
		case "ASTGenerator":
			return ref.Likely(w.R, w.Root, func(r *ref.Rep) int {
				if r.Max == ref.Inf {
					return r.Min + 3
				}
				return r.Max
			}, 0.002)
		}
		return nil, true
	}, func(b []byte) []byte { return b })
}

func init() {
	register(&Prop{ID: "C28", Count: tiers(6000, 60000), Run: c28,
		Rule: "draws of Generate, ASTGenerator and Generator (tapes, stable tapes, random sources) on random and directed grammars until every word an even choice would make likely was seen; single-byte edits of tapes of words of independent parts; non-trivial: words among several"})
}

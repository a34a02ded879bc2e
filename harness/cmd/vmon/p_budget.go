package main

import (
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"strings"

	goabnf "github.com/pandatix/go-abnf"

	"verif/gen"
	"verif/ref"
)

// -------------------------------------------------------------- C19 budgets

// bombs are grammars whose unbudgeted cost explodes; with a budget every call
// has to come back quickly with the budget's own error.
type bomb struct {
	name string
	text string // | separates lines
	rule string
	in   string
}

func doubling(n int, sep, leaf string) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&sb, "r%d = r%d%sr%d|", i, i+1, sep, i+1)
	}
	fmt.Fprintf(&sb, "r%d = %s", n, leaf)
	return sb.String()
}

func manyRules(n int) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&sb, "r%d = \"a\" r%d / [\"b\"] (\"c\" / \"d\")|", i, i+1)
	}
	fmt.Fprintf(&sb, "r%d = \"z\"", n)
	return sb.String()
}

var bombs = []bomb{
	{"ambiguous", `s = s s / s s s / "a" / ""`, "s", strings.Repeat("a", 400)},
	{"ambiguous2", `s = *(*(*"a" / s) "a") / s s`, "s", strings.Repeat("a", 300)},
	{"doubling", doubling(60, " ", `"a"`), "r0", "aaaa"},
	{"doubling-alt", doubling(40, " / ", `"ab" / "cd" / "e"`), "r0", "ab"},
	{"doubling-nullable", doubling(40, " ", `["a"]`), "r0", "aaaa"},
	{"nested", `s = 10(10(10(10(10(10(10(10(10"a"))))))))`, "s", "aaaa"},
	{"nested-opt", `s = *9(*9(*9(*9(*9(*9(*9(*9"a")))))))`, "s", "aaaa"},
	{"wide", `s = %x0-10FFFF %x0-10FFFF *%x0-10FFFF`, "s", "aaaa"},
	{"rules", manyRules(200), "r0", "aac"},
	{"empty", `s = 1000000000000""`, "s", "aa"},
	{"empty2", `s = *1000000000000(["a"])`, "s", "aaa"},
	{"empty3", `s = 7*9999999999x|x = *"c" / *99999999999["d"]`, "s", "ccd"},
	{"empty4", `s = 5000000*2000000(["a"] *900000000["b"])`, "s", "abab"},
	{"big-min", `s = 250"a" *(200"b" / 199"c")`, "s", strings.Repeat("a", 250)},
}

// hugeShapes have %s for a repetition prefix; elements consume input.
var hugeShapes = []struct{ text, in string }{
	{`s = %s"a"`, "aaaaaaaaaaaa"},
	{`s = %s("a" / "b") "c"`, "abababababc"},
	{`s = [x] %sx|x = "a" / "bc"`, "abcbcaabc"},
	{`s = %s(%s"a" ";")`, "aa;aaa;a;"},
	{`s = "<" *(%sDIGIT ".") ">"`, "<12.3.4444.>"},
	{`s = %s(ALPHA %s"-" DIGIT) / s "!"`, "a--1b-2c---3!"},
	{`s = %s%%x61-7A ["x"] / "(" s ")"`, "((abcdxx))"},
	{`s = %s"ab" %s"a"`, "abababaa"},
	{`s = s %s"a" / "b"`, "baaabaaa"},
}

var hugePrefixes = []string{"0*%d", "*%d", "1*%d", "2*%d", "%d*", "%d", "%d*%d", "3*%d"}

func sz(r *ref.Grammar, root string) int {
	n := 0
	r.AnyRep(root, func(*ref.Rep) bool { n++; return false })
	return n
}

func c19(c *Case) {
	i := c.Idx
	if i < len(bombs) {
		c19bomb(c, bombs[i])
		return
	}
	i -= len(bombs)
	if nh := len(hugeShapes) * len(hugePrefixes); i < nh {
		c19huge(c, hugeShapes[i/len(hugePrefixes)].text, hugeShapes[i/len(hugePrefixes)].in, hugePrefixes[i%len(hugePrefixes)])
		return
	}
	cc := *c
	if cc.Idx = i - len(hugeShapes)*len(hugePrefixes); cc.Idx%2 == 0 {
		cc.Idx /= 2
		ws, _ := engineWork(&cc, false)
		for _, w := range ws {
			c19forest(c, w)
		}
		c.fails = cc.fails
		return
	}
	cc.Idx /= 2
	ws, _ := regWork(&cc)
	for _, w := range ws {
		c19regex(c, w)
		c19graph(c, w)
	}
	c.fails = cc.fails
}

func c19bomb(c *Case, b bomb) {
	w := viaText(crlf(b.text), b.rule)
	if w == nil {
		c.Fail("bomb "+b.name, "ParseABNF refuses %s", b.name)
		return
	}
	for _, m := range []int{1, 10, 1000, 20000} {
		c.Note("ParseForest budget %d of %s", m, b.name)
		f, err := goabnf.ParseForest([]byte(b.in), w.L, b.rule, goabnf.WithMaxForestNodes(m), goabnf.WithMaxSlots(m))
		c19answer(c, "bomb "+b.name, m, err, f != nil, func() int { return f.Nodes() })
		c.Note("ParseBSR budget %d of %s", m, b.name)
		bf, err := goabnf.ParseBSR([]byte(b.in), w.L, b.rule, goabnf.WithMaxForestNodes(m), goabnf.WithMaxSlots(m))
		c19answer(c, "bomb "+b.name, m, err, bf != nil, func() int { return bf.Nodes() })
		c.Note("Regex budget %d of %s", m, b.name)
		re, err := w.L.Regex(b.rule, goabnf.WithMaxRegexLen(m))
		var rl *goabnf.ErrRegexTooLarge
		var cy *goabnf.ErrCyclicRule
		c.Eval(true, b.name, "regex", fmt.Sprint(m))
		if err == nil && len(re) > m || err != nil && !errors.As(err, &rl) && !errors.As(err, &cy) || rl != nil && rl.Max != m {
			c.Fail("bomb-regex "+b.name, "Regex with a budget of %d: %d bytes, error %T %v", m, len(re), err, err)
		}
		for k := 0; k < 8; k++ {
			if m > 1000 && (strings.Contains(b.name, "nullable") || strings.Contains(b.name, "opt")) {
				break // edges of skippable chains are quadratic in the nodes
			}
			f := flagsOf(c, k)
			c.Note("TransitionGraph budget %d %s of %s", m, f, b.name)
			tg, err := w.L.TransitionGraph(b.rule, f.opts(goabnf.WithMaxNodes(m))...)
			c.Eval(true, b.name, "tg", fmt.Sprint(m, k))
			var mn *goabnf.ErrMaxNodesExceeded
			if err != nil {
				if !errors.As(err, &mn) && !errors.As(err, &cy) && !(strings.HasPrefix(b.name, "empty") && mn == nil) || mn != nil && mn.Max != m {
					c.Fail("bomb-tg "+b.name, "TransitionGraph %s with a budget of %d: error %T %v", f, m, err, err)
				}
				continue
			}
			if v, err := viewTG(tg); err != nil || len(v.nodes) > m {
				c.Fail("bomb-tg "+b.name, "TransitionGraph %s with a budget of %d has %d nodes (%v)", f, m, len(v.nodes), err)
			}
		}
	}
	c.Inc("bombs")
}

func c19answer(c *Case, key string, m int, err error, got bool, nodes func() int) {
	c.Eval(true, key, fmt.Sprint(m))
	if err == nil {
		if n := nodes(); n > m {
			c.Fail(key, "%s: %d nodes under a budget of %d", key, n, m)
		}
		c.Inc("within_budget")
		return
	}
	var fl *goabnf.ErrForestTooLarge
	var gl *goabnf.ErrGrammarTooLarge
	switch {
	case errors.As(err, &fl) && fl.Max == m, errors.As(err, &gl) && gl.Max == m:
		c.Inc("over_budget")
		if got {
			c.Fail(key, "%s: a result is returned along with %v", key, err)
		}
	default:
		c.Fail(key, "%s under a budget of %d: error %T %v", key, m, err, err)
	}
}

// allocs counts heap allocations of f, a machine-independent measure of work.
func allocs(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.Mallocs - a.Mallocs
}

// c19huge compares the work for a moderate and for enormous bounds.
func c19huge(c *Case, shape, in, prefix string) {
	mk := func(n int) *Work {
		p := prefix
		if strings.Count(p, "%d") == 2 {
			p = fmt.Sprintf(p, n/2, n)
		} else {
			p = fmt.Sprintf(p, n)
		}
		k := strings.Count(shape, "%s")
		args := make([]any, k)
		for i := range args {
			args[i] = p
		}
		return viaText(crlf(fmt.Sprintf(shape, args...)), "s")
	}
	base := 60
	bw := mk(base)
	for _, n := range []int{1_000_000, 1_000_000_000, 1 << 31, 1_000_000_000_000, 1<<62 - 1} {
		w := mk(n)
		if bw == nil || w == nil {
			c.Fail("huge-parse "+shape+prefix, "ParseABNF refuses %s with %s of %d", shape, prefix, n)
			return
		}
		// with the same bounds of at least 60 the answers on these inputs agree
		words := [][]byte{nil, []byte(in), []byte(in[:len(in)/2]), []byte(in + in)}
		calls := []struct {
			name string
			f    func(w *Work, in []byte) string
		}{
			{"IsValid", func(w *Work, in []byte) string {
				v, err := w.L.IsValid("s", in)
				return fmt.Sprint(v, err)
			}},
			{"ParseForest", func(w *Work, in []byte) string {
				f, err := goabnf.ParseForest(in, w.L, "s")
				if err != nil {
					return err.Error()
				}
				return fmt.Sprint(f.Valid(), f.NumTrees(), f.Ambiguous(), f.Tree() != nil)
			}},
			{"ParseBSR", func(w *Work, in []byte) string {
				f, err := goabnf.ParseBSR(in, w.L, "s")
				if err != nil {
					return err.Error()
				}
				return fmt.Sprint(f.Valid(), f.NumTrees(), f.Ambiguous(), f.Tree() != nil)
			}},
			{"GenerateGoParser", func(w *Work, in []byte) string {
				src, err := goabnf.GenerateGoParser(w.L, "s", "p")
				return fmt.Sprint(len(src)/2000, err)
			}},
		}
		for _, call := range calls {
			for wi, in := range words {
				if call.name == "GenerateGoParser" && wi > 0 {
					continue
				}
				var a, b string
				c.Note("%s(%q) of %s with bound %d", call.name, in, bw.Text, base)
				ca := allocs(func() { a = call.f(bw, in) })
				c.Note("%s(%q) of %s", call.name, in, w.Text)
				cb := allocs(func() { b = call.f(w, in) })
				c.Eval(true, call.name, w.Text, string(in))
				c.Inc("huge_bounds")
				if a != b && call.name != "GenerateGoParser" {
					c.Fail("huge "+call.name+" "+w.Key(string(in)), "%s on %q: %s with bounds of %d, %s with bounds of %d\n%s", call.name, in, a, base, b, n, w.Text)
				}
				if cb > 4*ca+4000 {
					c.Fail("huge-work "+call.name+" "+w.Key(string(in)), "%s on %q allocates %d times with bounds of %d, %d times with bounds of %d: the work depends on the bound\n%s", call.name, in, ca, base, cb, n, w.Text)
				}
			}
		}
	}
	c.Sample("%s with %s", shape, prefix)
}

func c19forest(c *Case, w *Work) {
	if nullableBounded(w.R, w.Root, 16) {
		c.Inc("skipped_nullable_bounded")
		return
	}
	for _, in := range w.Inputs(c, 5, 9) {
		c.Note("ParseForest of %q, %s", in, w.Text)
		f0, err := goabnf.ParseForest(in, w.L, w.Root, goabnf.WithMaxForestNodes(40000))
		if err != nil {
			c.Inc("skipped_large_forest")
			continue
		}
		b0, err := goabnf.ParseBSR(in, w.L, w.Root, goabnf.WithMaxForestNodes(80000))
		if err != nil {
			c.Inc("skipped_large_forest")
			continue
		}
		want := fmt.Sprint(f0.Valid(), f0.NumTrees(), f0.Ambiguous(), f0.Nodes())
		wantB := fmt.Sprint(b0.Valid(), b0.NumTrees(), b0.Ambiguous(), b0.Nodes())
		fn, bn := f0.Nodes(), b0.Nodes()
		okF, okB := -1, -1 // smallest budget that was enough so far
		badF, badB := 0, 0 // largest that was not
		budgets := []int{1, 2, fn / 2, fn - 1, fn, fn + 1, bn / 2, bn - 1, bn, bn + 1, 2*fn + 10, 4*bn + 40, 0, 1 + c.Rng.IntN(2*fn+4), 1 + c.Rng.IntN(2*bn+4)}
		for _, m := range budgets {
			if m < 0 {
				continue
			}
			key := fmt.Sprintf("forest %s", w.Key(string(in)))
			f, err := goabnf.ParseForest(in, w.L, w.Root, goabnf.WithMaxForestNodes(m))
			c.Eval(true, w.Text, w.Root, string(in), fmt.Sprint(m))
			if m == 0 {
				if err != nil {
					c.Fail(key, "ParseForest without bound: %v", err)
				}
			} else if c19answer(c, key, m, err, f != nil, func() int { return f.Nodes() }); err != nil {
				badF = max(badF, m)
			} else if okF < 0 || m < okF {
				okF = m
			}
			if err == nil {
				if got := fmt.Sprint(f.Valid(), f.NumTrees(), f.Ambiguous(), f.Nodes()); got != want {
					c.Fail(key, "ParseForest(%q) under a budget of %d answers %s, without one %s\n%s", in, m, got, want, w.Text)
				}
			}
			b, err := goabnf.ParseBSR(in, w.L, w.Root, goabnf.WithMaxForestNodes(m))
			if m == 0 {
				if err != nil {
					c.Fail(key, "ParseBSR without bound: %v", err)
				}
			} else if c19answer(c, "BSR "+key, m, err, b != nil, func() int { return b.Nodes() }); err != nil {
				badB = max(badB, m)
			} else if okB < 0 || m < okB {
				okB = m
			}
			if err == nil {
				if got := fmt.Sprint(b.Valid(), b.NumTrees(), b.Ambiguous(), b.Nodes()); got != wantB {
					c.Fail(key, "ParseBSR(%q) under a budget of %d answers %s, without one %s\n%s", in, m, got, wantB, w.Text)
				}
			}
		}
		if okF > 0 && badF >= okF || okB > 0 && badB >= okB {
			c.Fail("forest-monotone "+w.Key(string(in)), "budgets of %d/%d are enough, of %d/%d are not (forest/BSR)\n%s", okF, okB, badF, badB, w.Text)
		}
	}
	// nonterminals
	in := []byte{}
	if ins := w.Inputs(c, 3, 6); len(ins) > 0 {
		in = ins[c.Rng.IntN(len(ins))]
	}
	ok, bad := -1, 0
	want := ""
	lim := 20*sz(w.R, w.Root) + 100
	for _, m := range []int{0, lim, 1, 2, 3, 5, 8, 13, 21, 34, 55, 1 + c.Rng.IntN(60)} {
		f, err := goabnf.ParseForest(in, w.L, w.Root, goabnf.WithMaxSlots(m))
		b, errB := goabnf.ParseBSR(in, w.L, w.Root, goabnf.WithMaxSlots(m))
		c.Eval(true, w.Text, w.Root, "slots", fmt.Sprint(m))
		if (err == nil) != (errB == nil) {
			c.Fail("slots "+w.Text, "WithMaxSlots(%d): ParseForest error %v, ParseBSR error %v\n%s", m, err, errB, w.Text)
			return
		}
		if err != nil {
			var gl *goabnf.ErrGrammarTooLarge
			if m == 0 || m == lim || !errors.As(err, &gl) || gl.Max != m || f != nil || b != nil {
				c.Fail("slots "+w.Text, "WithMaxSlots(%d): error %T %v for a grammar of %d repetitions\n%s", m, err, err, sz(w.R, w.Root), w.Text)
				return
			}
			bad = max(bad, m)
			c.Inc("slots_refused")
			continue
		}
		c.Inc("slots_ok")
		if m > 0 && (ok < 0 || m < ok) {
			ok = m
		}
		got := fmt.Sprint(f.Valid(), f.NumTrees(), b.Valid(), b.NumTrees())
		if want == "" {
			want = got
		} else if got != want {
			c.Fail("slots "+w.Text, "WithMaxSlots(%d) answers %s, without it %s\n%s", m, got, want, w.Text)
		}
	}
	if ok > 0 && bad >= ok {
		c.Fail("slots-monotone "+w.Text, "WithMaxSlots(%d) is enough, WithMaxSlots(%d) is not\n%s", ok, bad, w.Text)
	}
	// every reachable rule needs a nonterminal of its own
	rules := 1
	for n := range w.R.Reach(w.Root) {
		if n != ref.Lower(w.Root) && w.R.Find(n) != nil {
			rules++
		}
	}
	if ok > 0 && ok < rules {
		c.Fail("slots-exceeded "+w.Text, "WithMaxSlots(%d) accepts a grammar of %d reachable rules\n%s", ok, rules, w.Text)
	}
}

func c19regex(c *Case, w *Work) {
	full, err := w.L.Regex(w.Root)
	if err != nil || len(full) > 20000 {
		c.Inc("no_regex")
		return
	}
	n := len(full)
	for _, m := range []int{1, 2, n / 2, n - 1, n, n + 1, 3*n + 5, 0, 1 + c.Rng.IntN(n+3)} {
		if m < 0 || m == 0 && n == 0 {
			continue
		}
		re, err := w.L.Regex(w.Root, goabnf.WithMaxRegexLen(m))
		c.Eval(true, w.Text, "regex", fmt.Sprint(m))
		var rl *goabnf.ErrRegexTooLarge
		switch {
		case err == nil && m > 0 && len(re) > m:
			c.Fail("regex "+w.Text, "WithMaxRegexLen(%d): a pattern of %d bytes\n%s", m, len(re), w.Text)
		case err == nil && re != full:
			c.Fail("regex "+w.Text, "WithMaxRegexLen(%d): %q, without it %q\n%s", m, re, full, w.Text)
		case err != nil && (m == 0 || m >= n):
			c.Fail("regex "+w.Text, "WithMaxRegexLen(%d): error %v, the pattern has %d bytes\n%s", m, err, n, w.Text)
		case err != nil && (!errors.As(err, &rl) || rl.Max != m || re != ""):
			c.Fail("regex "+w.Text, "WithMaxRegexLen(%d): error %T %v, result %q\n%s", m, err, err, re, w.Text)
		case err != nil:
			c.Inc("regex_over_budget")
		default:
			c.Inc("regex_within_budget")
		}
	}
}

func c19graph(c *Case, w *Work) {
	f := flagsOf(c, c.Rng.IntN(8))
	tg := buildTG(c, w, f, false, goabnf.WithMaxNodes(400))
	if tg == nil {
		c.Inc("no_graph")
		return
	}
	v, err := viewTG(tg)
	if err != nil {
		return
	}
	n := len(v.nodes)
	ok, bad := -1, 0
	for _, m := range []int{1, n / 2, n - 1, n, n + 1, 2 * n, 3*n + 3, 1 + c.Rng.IntN(2*n+2), 400, 0} {
		if m < 0 {
			continue
		}
		g, err := w.L.TransitionGraph(w.Root, f.opts(goabnf.WithMaxNodes(m))...)
		c.Eval(n > 0, w.Text, f.String(), fmt.Sprint(m))
		if err != nil {
			var mn *goabnf.ErrMaxNodesExceeded
			if m == 0 || m == 400 || !errors.As(err, &mn) || mn.Max != m || g != nil {
				c.Fail("tg "+w.Text, "WithMaxNodes(%d) %s: error %T %v\n%s", m, f, err, err, w.Text)
				return
			}
			bad = max(bad, m)
			c.Inc("graph_over_budget")
			continue
		}
		if m > 0 && (ok < 0 || m < ok) {
			ok = m
		}
		c.Inc("graph_within_budget")
		gv, err := viewTG(g)
		if err != nil {
			c.Fail("tg "+w.Text, "WithMaxNodes(%d) %s: %v\n%s", m, f, err, w.Text)
			return
		}
		if m > 0 && len(gv.nodes) > m {
			c.Fail("tg-exceeded "+w.Text, "WithMaxNodes(%d) %s: a graph of %d nodes\n%s", m, f, len(gv.nodes), w.Text)
			return
		}
		if len(gv.nodes) != n || len(gv.entries) != len(v.entries) || gv.empty != v.empty {
			c.Fail("tg-differs "+w.Text, "WithMaxNodes(%d) %s: %d nodes and %d entrypoints, without it %d and %d\n%s", m, f, len(gv.nodes), len(gv.entries), n, len(v.entries), w.Text)
			return
		}
	}
	if ok > 0 && bad >= ok {
		c.Fail("tg-monotone "+w.Text, "WithMaxNodes(%d) is enough, WithMaxNodes(%d) is not\n%s", ok, bad, w.Text)
	}
}

// --------------------------------------------------- C26 generation budgets

// segShapes are repetitions whose occurrences can be counted in the output:
// runs of 'a' (split by any other octet) come from one repetition MIN*MAX"a".
type segShape struct {
	text string // %s: repetition prefix
}

var segShapes = []segShape{
	{`s = %s%%s"a"`},
	{`s = "<" %s%%s"a" ">"`},
	{`s = x ";" x ["," x]|x = %s%%s"a"`},
	{`s = 2*3( %s%%x61 ";" )`},
	{`s = "b" [ %s%%s"a" ] "c" / %s%%s"a"`},
	{`s = "(" s ")" / %s%%s"a"`},
	{`s = 1*2( "x" (%s("a" / %%x61)) )`},
}

func runsOfA(b []byte) (out []int) {
	n, in := 0, false
	for _, x := range append(append([]byte{}, b...), '#') {
		if x|32 == 'a' {
			n++
			in = true
			continue
		}
		if in {
			out = append(out, n)
		}
		n, in = 0, false
	}
	return
}

func c26(c *Case) {
	if c.Idx%3 != 0 {
		c26graph(c)
		return
	}
	c26defaults(c)
	sh := segShapes[c.Rng.IntN(len(segShapes))]
	lo := []int{0, 0, 1, 2, 5, 20}[c.Rng.IntN(6)]
	hi := -1
	if c.Rng.IntN(3) == 0 {
		hi = lo + c.Rng.IntN(40)
	}
	pre := fmt.Sprintf("%d*", lo)
	if hi >= 0 {
		pre = fmt.Sprintf("%d*%d", lo, hi)
	}
	args := make([]any, strings.Count(strings.ReplaceAll(sh.text, "%%", ""), "%s"))
	for i := range args {
		args[i] = pre
	}
	w := viaText(crlf(fmt.Sprintf(sh.text, args...)), "s")
	if w == nil {
		c.Fail("shape", "refused %s", sh.text)
		return
	}
	judge := func(how string, b []byte, lim int) {
		c.Eval(len(b) > 0, how, string(b))
		for _, n := range runsOfA(b) {
			c.Inc("runs")
			if n == lim {
				c.Inc("runs_at_the_limit")
			}
			if n > lim || n < lo {
				c.Fail("reps "+w.Text, "%s yields %q: a repetition %s unrolled %d times, allowed %d to %d\n%s", how, b, pre, n, lo, lim, w.Text)
				return
			}
		}
	}
	for k := 0; k < 40; k++ {
		r := []int{0, 1, 2, 3, 7, 16, 33}[c.Rng.IntN(7)]
		seed := c.Rng.Int64()
		lim := hi
		if hi < 0 {
			lim = max(lo, r)
		}
		b, err := w.L.Generate(seed, "s", goabnf.WithRepMax(r), goabnf.WithThreshold(2000))
		if err != nil {
			c.Fail("gen "+w.Text, "Generate: %v\n%s", err, w.Text)
			return
		}
		judge(fmt.Sprintf("Generate(%d) repMax=%d", seed, r), b, lim)
		if ag, err := goabnf.NewASTGenerator(w.L, "s", goabnf.WithMaxRepeat(r), goabnf.WithMaxLen(2000)); err == nil {
			lim := hi
			if hi < 0 {
				lim = lo + r
			}
			judge(fmt.Sprintf("ASTGenerator maxRepeat=%d seed %d", r, seed), ag.GenerateRand(rand.New(rand.NewSource(seed))), lim)
		}
	}
	// recursion stops at the length, depth and threshold budgets
	for _, g := range []struct {
		text string
		tail int // octets that may come after the budget is reached
	}{{`s = "a" s / "b"`, 1}, {`s = x s / x|x = "a" / "b"`, 1}, {`s = *"a"`, 0}, {`s = 1*("a" / "b")`, 1}, {`s = *("a" *"b")`, 1}} {
		w := viaText(crlf(g.text), "s")
		for k := 0; k < 6; k++ {
			m := 1 + c.Rng.IntN(25)
			seed := c.Rng.Int64()
			b, err := w.L.Generate(seed, "s", goabnf.WithRepMax(1000), goabnf.WithThreshold(m))
			c.Eval(true, g.text, "th", fmt.Sprint(m, seed))
			c.Inc("thresholds")
			if err != nil || len(b) > m+g.tail {
				c.Fail("threshold "+g.text, "Generate(%d) with a threshold of %d yields %d octets, error %v\n%s", seed, m, len(b), err, g.text)
			}
			ag, err := goabnf.NewASTGenerator(w.L, "s", goabnf.WithMaxRepeat(1000), goabnf.WithMaxLen(m), goabnf.WithMaxDepth(1<<20))
			if err != nil {
				c.Fail("astgen "+g.text, "NewASTGenerator: %v", err)
				continue
			}
			if b := ag.GenerateRand(rand.New(rand.NewSource(seed))); len(b) > m+g.tail {
				c.Fail("maxlen "+g.text, "ASTGenerator with a length of %d yields %d octets (seed %d)\n%s", m, len(b), seed, g.text)
			}
		}
	}
	for k := 0; k < 6; k++ {
		d := c.Rng.IntN(12)
		seed := c.Rng.Int64()
		w := viaText(crlf(`s = "a" s / "b"`), "s")
		ag, err := goabnf.NewASTGenerator(w.L, "s", goabnf.WithMaxDepth(d))
		c.Eval(true, "depth", fmt.Sprint(d, seed))
		if err != nil {
			c.Fail("astgen", "NewASTGenerator: %v", err)
			continue
		}
		if b := ag.GenerateRand(rand.New(rand.NewSource(seed))); len(b) > d+1 {
			c.Fail("depth", "ASTGenerator with a depth of %d yields %d octets out of nested rules (seed %d)", d, len(b), seed)
		}
	}
	c.Sample("%s", w.Text)
	c26spent(c)
}

// skeleton bounds the length in characters of a word made once the budgets are
// spent: minimal counts, no option, any alternative (the rules are acyclic).
func skeleton(g *ref.Grammar, a *ref.Alt, lim int) (lo, hi int) {
	lo = 1 << 30
	for _, cc := range a.Concats {
		l, h := 0, 0
		for _, r := range cc.Reps {
			if r.Min == 0 {
				continue
			}
			x, y := 0, 0
			switch e := r.Elem; e.Kind {
			case ref.KRule:
				x, y = skeleton(g, g.Find(e.Name).Alt, lim)
			case ref.KGroup:
				x, y = skeleton(g, e.Alt, lim)
			case ref.KStr:
				x = len([]rune(e.Str))
				y = x
			case ref.KNum:
				x = len(e.Vals)
				if e.Range {
					x = 1
				}
				y = x
			}
			l, h = min(l+x*r.Min, lim), min(h+y*r.Min, lim)
		}
		lo, hi = min(lo, l), max(hi, h)
	}
	return lo, hi
}

// c26spent: generators whose depth or length is spent from the start take
// nothing optional.
func c26spent(c *Case) {
	for k := 0; k < 12; k++ {
		p := gen.RandomProfile(c.Rng)
		p.DAG, p.Counted, p.Depth = true, true, c.Rng.IntN(4)
		p.MaxAlts = 1 + c.Rng.IntN(2)
		r := gen.Random(c.Rng, p)
		w := build(c, r, r.Rules[0].Name)
		if w == nil {
			continue
		}
		lo, hi := skeleton(w.R, w.R.Find(w.Root).Alt, 1<<20)
		ag, err := goabnf.NewASTGenerator(w.L, w.Root, []goabnf.ASTGenOption{goabnf.WithMaxDepth(0), goabnf.WithMaxLen(0)}[c.Rng.IntN(2)], goabnf.WithMaxRepeat(c.Rng.IntN(9)))
		if err != nil {
			c.Inc("spent refused")
			continue
		}
		for j := 0; j < 6; j++ {
			seed := c.Rng.Int64()
			b := ag.GenerateRand(rand.New(rand.NewSource(seed)))
			n := len([]rune(string(b)))
			c.Eval(true, "spent", w.Text, string(b))
			c.Inc("spent from the start")
			if n < lo || n > hi {
				c.Fail("spent "+w.Text, "ASTGenerator without depth or length left yields %q (seed %d), %d characters; without optional parts it is %d to %d\n%s", b, seed, n, lo, hi, w.Text)
			}
		}
	}
}

// defaultShapes reach every default budget.
var defaultShapes = []string{
	`s = *"a"`, `s = 1*("a" / "b")`, `s = "a" s / "b"`, `s = s "a" / "b"`, `s = "(" s ")" / "b" / s s`, `s = *("a" *"b")`, `s = *(*"a" "b")`,
	`s = x s / x|x = "abc" / "de"`, `s = *t|t = "x" *"y" [t]`, `s = *[x]|x = "a" / "b" x`, `s = *%x61-7A ";" *"q"`, `s = *(*(*"abc" "d") "e")`, `s = 1*256"a"`, `s = 257"a"`, `s = *257"a"`, `s = 256"a"`,
}

// c26defaults: leaving an option out is giving its documented default.
func c26defaults(c *Case) {
	var w *Work
	if c.Rng.IntN(3) != 0 {
		w = viaText(crlf(defaultShapes[c.Rng.IntN(len(defaultShapes))]), "s")
	} else {
		p := gen.RandomProfile(c.Rng)
		p.Amp = 0
		r := gen.Random(c.Rng, p)
		w = build(c, r, r.Rules[0].Name)
	}
	if w == nil || longWords(w.R, w.Root) {
		return
	}
	tape := make([]byte, c.Rng.IntN(20000))
	mode := c.Rng.IntN(3)
	for i := range tape {
		switch mode {
		case 0:
			tape[i] = byte(c.Rng.IntN(256))
		case 1:
			tape[i] = byte(c.Rng.IntN(3))
		default:
			tape[i] = byte(255 - c.Rng.IntN(4))
		}
	}
	seed := c.Rng.Int64()
	same := func(what string, a, b []byte) {
		c.Eval(len(a) > 0, what, w.Text, string(a))
		c.Inc("words under default budgets")
		if len(a) > 1000 {
			c.Inc("words under default budgets, long")
		}
		if string(a) != string(b) {
			c.Fail("default "+what+" "+w.Text, "%s: without options %d octets %.200q, with the documented defaults as options %d octets %.200q\n%s", what, len(a), a, len(b), b, w.Text)
		}
	}
	all := []goabnf.ASTGenOption{goabnf.WithMaxDepth(32), goabnf.WithMaxLen(4096), goabnf.WithMaxRepeat(16)}
	ag, err := goabnf.NewASTGenerator(w.L, w.Root)
	ag2, err2 := goabnf.NewASTGenerator(w.L, w.Root, all...)
	if (err == nil) != (err2 == nil) {
		c.Fail("default "+w.Text, "NewASTGenerator: %v without options, %v with the documented defaults\n%s", err, err2, w.Text)
	} else if err == nil {
		c.Note("ASTGenerator(%q).Generate(%d octets) of %s", w.Root, len(tape), w.Text)
		same("ASTGenerator.Generate", ag.Generate(tape), ag2.Generate(tape))
		same("ASTGenerator.GenerateRand", ag.GenerateRand(rand.New(rand.NewSource(seed))), ag2.GenerateRand(rand.New(rand.NewSource(seed))))
	}
	tg, err := w.L.TransitionGraph(w.Root, goabnf.WithDeflateRules(true), goabnf.WithMaxNodes(20000))
	tg2, err2 := w.L.TransitionGraph(w.Root, goabnf.WithDeflateRules(true), goabnf.WithMaxNodes(20000), goabnf.WithRepetitionThreshold(256))
	if (err == nil) != (err2 == nil) {
		c.Fail("default "+w.Text, "TransitionGraph: %v without options, %v with the documented defaults\n%s", err, err2, w.Text)
	} else if err == nil && w.R.Productive(w.Root) {
		_ = tg2
		ge, err := goabnf.NewGenerator(tg)
		ge2, err2 := goabnf.NewGenerator(tg, goabnf.WithMaxLength(4096), goabnf.WithMaxReps(32), goabnf.WithMaxSteps(100000))
		if err != nil || err2 != nil {
			return
		}
		c.Note("Generator(%q).Generate(%d octets) of %s", w.Root, len(tape), w.Text)
		same("Generator.Generate", ge.Generate(tape), ge2.Generate(tape))
		same("Generator.GenerateRand", ge.GenerateRand(rand.New(rand.NewSource(seed))), ge2.GenerateRand(rand.New(rand.NewSource(seed))))
	}
}

// c26graph: length, repetition and step budgets of the graph generator.
func c26graph(c *Case) {
	ws, _ := regWork(c)
	for _, w := range ws {
		if !w.R.Productive(w.Root) {
			continue
		}
		tg := buildTG(c, w, genFlags(c), false)
		if tg == nil {
			continue
		}
		v, err := viewTG(tg)
		if err != nil || len(v.nodes) == 0 {
			continue
		}
		// distance to an endpoint, in nodes still to emit; longest token; edges
		dist := map[*goabnf.Node]int{}
		rev := map[*goabnf.Node][]*goabnf.Node{}
		edges, tok := 0, 0
		for _, n := range v.nodes {
			for _, x := range n.Nexts {
				rev[x] = append(rev[x], n)
				edges++
			}
			e := v.elems[n]
			switch e.Kind {
			case ref.KStr:
				tok = max(tok, len(e.Str))
			case ref.KNum:
				tok = max(tok, 4*len(e.Vals))
				if e.Range {
					tok = max(tok, 4)
				}
			}
		}
		var qn []*goabnf.Node
		for n := range v.ends {
			dist[n] = 0
			qn = append(qn, n)
		}
		far := 0
		for len(qn) > 0 {
			n := qn[0]
			qn = qn[1:]
			far = max(far, dist[n])
			for _, p := range rev[n] {
				if _, ok := dist[p]; !ok {
					dist[p] = dist[n] + 1
					qn = append(qn, p)
				}
			}
		}
		for k := 0; k < 6; k++ {
			m := 1 + c.Rng.IntN(40)
			var opts []goabnf.GenOption
			lim, what := 0, ""
			switch k % 3 {
			case 0:
				opts = append(opts, goabnf.WithMaxLength(m), goabnf.WithMaxReps(1<<30))
				lim, what = m-1+tok*(1+far), fmt.Sprintf("a length of %d", m)
			case 1:
				opts = append(opts, goabnf.WithMaxSteps(m), goabnf.WithMaxLength(1<<30), goabnf.WithMaxReps(1<<30))
				lim, what = tok*(m+1+far), fmt.Sprintf("%d steps", m)
			default:
				m = 1 + m%4
				opts = append(opts, goabnf.WithMaxReps(m), goabnf.WithMaxLength(1<<30))
				// every uncapped step may be followed by forced ones
				lim, what = tok*(1+(edges*m+1)*(1+far)), fmt.Sprintf("%d repetitions", m)
			}
			ge, err := goabnf.NewGenerator(tg, opts...)
			if err != nil {
				continue
			}
			var outs [][]byte
			for j := 0; j < 4; j++ {
				outs = append(outs, ge.GenerateRand(rand.New(rand.NewSource(c.Rng.Int64()))))
			}
			outs = append(outs, ge.Generate([]byte(strings.Repeat("\xff\x01\x7f", 3000))), ge.Generate([]byte(strings.Repeat("\x01", 9000))))
			for _, b := range outs {
				c.Eval(len(b) > 0, w.Text, what, string(b))
				c.Inc("graph_words")
				if len(b) > lim {
					c.Fail("budget "+w.Text, "Generator with %s yields %d octets, at most %d are left by it (longest token %d, furthest endpoint %d, %d edges)\n%s", what, len(b), lim, tok, far, edges, w.Text)
				}
			}
		}
	}
}

func init() {
	register(&Prop{ID: "C19", Count: tiers(6000, 60000), Run: c19, CaseSec: 40,
		Rule:   "cost bombs under small budgets; repetition shapes with bounds up to 2^62 compared in answers and heap allocations with bounds of 60; random grammars under budget sweeps around the unbudgeted sizes; non-trivial: every budgeted call",
		Assume: []string{"huge bounds are only put on elements that consume input", "a graph budget bounds the nodes allocated while building, so it may refuse a graph that would fit"}})
	register(&Prop{ID: "C26", Count: tiers(12000, 100000), Run: c26,
		Rule: "repetitions countable in the output under repetition caps, recursions under length/threshold/depth budgets, random graphs under length, step and repetition budgets against bounds computed from the graph; non-trivial: non-empty words"})
}

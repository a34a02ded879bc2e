package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"regexp"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	goabnf "github.com/pandatix/go-abnf"

	"verif/bridge"
	"verif/gen"
	"verif/ref"
)

// regWork yields grammars for the regular-language machinery: directed ones,
// then random ones without (mostly) recursion.
func nReg() int {
	return len(gen.DirectedReg) + len(gen.DirectedRegBad) + len(gen.Directed) + len(gen.DirectedBad)
}

func regWork(c *Case) (ws []*Work, kind string) {
	i := c.Idx
	for _, l := range [][]string{gen.DirectedReg, gen.DirectedRegBad, gen.Directed, gen.DirectedBad} {
		if i < len(l) {
			if w := directed(c, l[i]); w != nil {
				ws = append(ws, w)
			}
			return ws, "directed"
		}
		i -= len(l)
	}
	for k := 0; k < 3; k++ {
		p := gen.RandomProfile(c.Rng)
		p.DAG = c.Rng.IntN(12) != 0
		p.Rules = 1 + c.Rng.IntN(4)
		if c.Rng.IntN(4) == 0 {
			p.Prose = c.Rng.IntN(3) == 0
			p.Undef = c.Rng.IntN(3) == 0
			p.BadRep = c.Rng.IntN(2) == 0
			p.BadNum = c.Rng.IntN(2) == 0
		}
		r := gen.Random(c.Rng, p)
		if k == 0 && c.Idx%67 == 5 {
			r = gen.Scale(c.Rng, c.Rng.IntN(8) != 0)
			c.Inc("large grammars")
		}
		if w := build(c, r, r.Rules[0].Name); w != nil {
			ws = append(ws, w)
		}
	}
	return ws, "random"
}

// ---------------------------------------------------------------- C06 Regex

// progAuto runs a compiled RE2 program as an automaton.
type progAuto struct{ p *syntax.Prog }

func (a *progAuto) closure(seed []uint32) ref.Set {
	seen := map[uint32]bool{}
	var out ref.Set
	st := append([]uint32{}, seed...)
	for len(st) > 0 {
		pc := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[pc] {
			continue
		}
		seen[pc] = true
		in := &a.p.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			st = append(st, in.Out, in.Arg)
		case syntax.InstCapture, syntax.InstNop:
			st = append(st, in.Out)
		case syntax.InstEmptyWidth:
			panic("empty width")
		case syntax.InstFail:
		default:
			out = append(out, int(pc))
		}
	}
	sort.Ints(out)
	return out
}
func (a *progAuto) Init() ref.Set { return a.closure([]uint32{uint32(a.p.Start)}) }
func (a *progAuto) Step(s ref.Set, r rune) ref.Set {
	var to []uint32
	for _, pc := range s {
		in := &a.p.Inst[pc]
		if in.Op != syntax.InstMatch && in.MatchRune(r) {
			to = append(to, in.Out)
		}
	}
	return a.closure(to)
}
func (a *progAuto) Acc(s ref.Set) bool {
	for _, pc := range s {
		if a.p.Inst[pc].Op == syntax.InstMatch {
			return true
		}
	}
	return false
}
func (a *progAuto) Cuts(s ref.Set, add func(rune)) {
	for _, pc := range s {
		in := &a.p.Inst[pc]
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1:
			if len(in.Rune) == 1 {
				for r := in.Rune[0]; ; {
					add(r)
					add(r + 1)
					if r = unicode.SimpleFold(r); r == in.Rune[0] {
						break
					}
				}
			}
			for i := 0; i+1 < len(in.Rune); i += 2 {
				add(in.Rune[i])
				add(in.Rune[i+1] + 1)
			}
		case syntax.InstRuneAnyNotNL:
			add('\n')
			add('\n' + 1)
		}
	}
}

func hasEmptyWidth(p *syntax.Prog) bool {
	for i := range p.Inst {
		if p.Inst[i].Op == syntax.InstEmptyWidth {
			return true
		}
	}
	return false
}

// repNest is the largest product of nested repetition bounds, RE2's own limit
// applies to it.
func repNest(g *ref.Grammar, root string) float64 {
	var alt func(a *ref.Alt, seen map[string]bool) float64
	alt = func(a *ref.Alt, seen map[string]bool) float64 {
		best := 1.0
		for _, cc := range a.Concats {
			for _, r := range cc.Reps {
				n := 1.0
				switch r.Elem.Kind {
				case ref.KGroup, ref.KOption:
					n = alt(r.Elem.Alt, seen)
				case ref.KRule:
					l := ref.Lower(r.Elem.Name)
					if rl := g.Find(l); rl != nil && !seen[l] {
						seen[l] = true
						n = alt(rl.Alt, seen)
						delete(seen, l)
					}
				}
				m := float64(max(r.Min, r.Max, 1))
				best = max(best, n*m)
			}
		}
		return best
	}
	rl := g.Find(root)
	if rl == nil {
		return 1
	}
	return alt(rl.Alt, map[string]bool{ref.Lower(root): true})
}

func c06(c *Case) {
	ws, kind := regWork(c)
	if c.Idx%53 == 9 {
		if w := countedWork(c, 300); w != nil {
			ws = append(ws, w)
		}
	}
	for _, w := range ws {
		root := spellings(c, w.Root)
		c.Note("Regex(%q) of %s", root, w.Text)
		re, err := w.L.Regex(root)
		re2, err2 := w.L.Regex(root)
		if re != re2 || (err == nil) != (err2 == nil) {
			c.Fail("Regex-unstable "+w.Text, "Regex(%q) gives %q then %q\n%s", root, re, re2, w.Text)
		}
		cyc, undef, prose := w.R.ContainsCycle(w.Root), w.R.UndefReach(w.Root), w.R.ProseReach(w.Root)
		if cyc || undef || prose {
			c.Eval(true, w.Text, w.Root)
			var ce *goabnf.ErrCyclicRule
			var de *goabnf.ErrDependencyNotFound
			switch {
			case err == nil:
				c.Fail("Regex-accepts "+w.Text, "Regex(%q) = %q although the rule reaches recursion=%v undefined=%v prose=%v\n%s", root, re, cyc, undef, prose, w.Text)
			case cyc && errors.As(err, &ce), undef && errors.As(err, &de), prose && errors.Is(err, goabnf.ErrHandlingProseVal):
				c.Inc("refused")
			default:
				c.Fail("Regex-error "+w.Text, "Regex(%q): error %T %v does not tell recursion=%v undefined=%v prose=%v\n%s", root, err, err, cyc, undef, prose, w.Text)
			}
			if re != "" {
				c.Fail("Regex-out "+w.Text, "Regex(%q) returns a pattern %q along with an error", root, re)
			}
			continue
		}
		if err != nil {
			c.Fail("Regex-err "+w.Text, "Regex(%q): %v\n%s", root, err, w.Text)
			continue
		}
		full := `\A(?:` + re + `)\z`
		rx, err := regexp.Compile(full)
		if err != nil {
			var se *syntax.Error
			if errors.As(err, &se) && (se.Code == syntax.ErrLarge || se.Code == syntax.ErrInvalidRepeatSize && repNest(w.R, w.Root) > 1000) {
				c.Inc("skipped_re2_limit")
				continue
			}
			c.Fail("Regex-invalid "+w.Text, "Regex(%q) = %q is not a valid RE2 pattern: %v\n%s", root, re, err, w.Text)
			continue
		}
		for _, in := range w.Inputs(c, 30, 14) {
			if !utf8.Valid(in) {
				continue
			}
			want := ref.Member(w.R, w.Root, in)
			c.Eval(len(in) > 0, w.Text, string(in))
			if got := rx.Match(in); got != want {
				c.Fail("Regex "+w.Key(string(in)), "Regex(%q) = %q matches %q: %v, the language says %v (%s)\n%s", root, re, in, got, want, w.Via, w.Text)
			}
			if want {
				c.Inc("accepted")
			} else {
				c.Inc("rejected")
			}
		}
		// exact comparison of the two languages
		tree, err := syntax.Parse(re, syntax.Perl)
		if err != nil {
			c.Fail("Regex-parse "+w.Text, "Regex(%q) = %q: %v", root, re, err)
			continue
		}
		prog, err := syntax.Compile(tree.Simplify())
		if err != nil || hasEmptyWidth(prog) {
			c.Inc("skipped_compile")
			continue
		}
		nfa := ref.BuildNFA(w.R, w.Root, 6000)
		if nfa == nil {
			c.Inc("skipped_nfa_size")
			continue
		}
		eq, done, cex, n := ref.Equal(nfa, &progAuto{prog}, 3000)
		switch {
		case !done:
			c.Inc("equivalence_undecided")
		case !eq:
			in := string(cex)
			c.Fail("Regex "+w.Key(in), "Regex(%q) = %q and the rule differ on %q (the language says %v) (%s)\n%s", root, re, in, nfa.Match([]byte(in)), w.Via, w.Text)
		default:
			c.Inc("equivalence_decided")
			c.Add("product_states", n)
		}
		if kind == "directed" {
			c.Sample("%s => %s", w.Text, re)
		}
	}
}

// judge decides membership of possibly long words: with the automaton when
// the rule is regular and small, else with the fixpoint under a work limit.
type judge struct {
	w    *Work
	nfa  *ref.NFA
	left int
}

func newJudge(w *Work) *judge {
	return &judge{w: w, nfa: ref.BuildNFA(w.R, w.Root, 3000), left: 60_000_000}
}

func (j *judge) member(b []byte) (in, done bool) {
	if j.nfa != nil && len(b) < 20000 {
		return j.nfa.Match(b), true
	}
	if j.left <= 0 || len(b) > 3000 {
		return false, false
	}
	lim := min(20_000_000, j.left)
	in, done, work := ref.MemberWithin(j.w.R, j.w.Root, b, lim)
	j.left -= work
	return in, done
}

func lenBucket(n int) string {
	switch {
	case n == 0:
		return "len_0"
	case n < 8:
		return "len_1_7"
	case n < 64:
		return "len_8_63"
	case n < 512:
		return "len_64_511"
	}
	return "len_512_up"
}

// -------------------------------------------------------------- C07 Generate

func c07(c *Case) {
	ws, kind := genWork(c)
	for _, w := range ws {
		if w.R.AnyRep(w.Root, func(r *ref.Rep) bool { return r.Min > 3000 && r.Min < 1<<30 }) {
			c.Inc("skipped_huge_minimum")
			continue
		}
		co := ref.Analyse(w.R, w.Root)
		prod := co.Rule(w.Root) < ref.CostInf
		if prod && co.Rule(w.Root) > 20000 {
			c.Inc("skipped_long_words")
			continue
		}
		ju := newJudge(w)
		seeds := 12
		if kind == "directed" {
			seeds = 40
		}
		for k := 0; k < seeds; k++ {
			var opts []goabnf.GenerateOption
			desc := ""
			if c.Rng.IntN(3) != 0 {
				n := []int{0, 1, 2, 4, 16, 40, -1}[c.Rng.IntN(7)]
				opts = append(opts, goabnf.WithRepMax(n))
				desc += fmt.Sprintf(" repMax=%d", n)
			}
			th := []int{0, 1, 5, 16, 64, -3}[c.Rng.IntN(6)]
			if c.Rng.IntN(8) != 0 {
				opts = append(opts, goabnf.WithThreshold(th))
				desc += fmt.Sprintf(" threshold=%d", th)
			}
			seed := int64(c.Rng.Uint64())
			if k < 6 {
				seed = int64(k)
			}
			root := spellings(c, w.Root)
			c.Note("Generate(%d,%q)%s of %s", seed, root, desc, w.Text)
			out, err := w.L.Generate(seed, root, opts...)
			out2, err2 := w.L.Generate(seed, root, opts...)
			if !bytes.Equal(out, out2) || (err == nil) != (err2 == nil) {
				c.Fail("Generate-unstable "+w.Text, "Generate(%d, %q)%s gives %q then %q\n%s", seed, root, desc, out, out2, w.Text)
			}
			if err != nil {
				c.Eval(true, w.Text, "err")
				c.Inc("refused")
				if len(out) != 0 {
					c.Fail("Generate-out "+w.Text, "Generate(%d, %q)%s returns bytes %q along with error %v", seed, root, desc, out, err)
				}
				if prod {
					c.Fail("Generate-refuses "+w.Text, "Generate(%d, %q)%s refuses a rule that derives a finite prose-free word: %v\n%s", seed, root, desc, err, w.Text)
				}
				break
			}
			if !prod {
				c.Fail("Generate-unproductive "+w.Text, "Generate(%d, %q)%s = %q for a rule that derives no word\n%s", seed, root, desc, out, w.Text)
				break
			}
			in, done := ju.member(out)
			if !done {
				c.Inc("undecided_long_words")
				continue
			}
			c.Eval(len(out) > 0, w.Text, w.Root, string(out))
			c.Inc("words")
			c.Inc(lenBucket(len(out)))
			if !in {
				c.Fail("Generate "+w.Text, "Generate(%d, %q)%s = %q is not in the rule's language (%s)\n%s", seed, root, desc, out, w.Via, w.Text)
			}
			if k < 2 && kind == "directed" {
				c.Sample("%s => %q", w.Text, out)
			}
		}
		if c.Rng.IntN(3) == 0 {
			_, err := w.L.Generate(1, "no-such-rule")
			var nf *goabnf.ErrRuleNotFound
			if !errors.As(err, &nf) {
				c.Fail("Generate-unknown", "Generate of an unknown rule: error %v, want ErrRuleNotFound", err)
			}
		}
	}
}

// genWork mixes recursive and regular grammars, and the ABNF grammar itself.
func genWork(c *Case) ([]*Work, string) {
	n := nReg()
	if c.Idx < n {
		return regWork(c)
	}
	d := len(gen.DirectedGen)
	if c.Idx < n+d {
		if w := directed(c, gen.DirectedGen[c.Idx-n]); w != nil {
			return []*Work{w}, "directed"
		}
		return nil, ""
	}
	if (c.Idx-n-d)%40 == 0 {
		names := []string{"rulelist", "rule", "elements", "alternation", "num-val", "group", "c-wsp", "char-val"}
		r, err := bridge.Lift(goabnf.ABNF)
		if err == nil {
			return []*Work{{R: r, L: goabnf.ABNF, Root: names[c.Rng.IntN(len(names))], Text: "ABNF", Via: "abnf"}}, "directed"
		}
	}
	cc := *c
	cc.Idx += len(gen.Directed) + len(gen.DirectedBad)
	ws, k := engineWork(&cc, true)
	return ws, k
}

// ---------------------------------------------------------- C08 ASTGenerator

func tapes(c *Case, n int) [][]byte {
	out := [][]byte{nil, {}, bytes.Repeat([]byte{0xFF}, 200), bytes.Repeat([]byte{1}, 200), bytes.Repeat([]byte{0, 1}, 100)}
	for len(out) < n {
		t := make([]byte, c.Rng.IntN(120))
		mode := c.Rng.IntN(3)
		for i := range t {
			switch mode {
			case 0:
				t[i] = byte(c.Rng.IntN(256))
			case 1:
				t[i] = byte(c.Rng.IntN(3))
			default:
				t[i] = byte(255 - c.Rng.IntN(4))
			}
		}
		out = append(out, t)
	}
	return out
}

func c08(c *Case) {
	ws, kind := genWork(c)
	for _, w := range ws {
		if w.R.AnyRep(w.Root, func(r *ref.Rep) bool { return r.Min > 3000 && r.Min < 1<<30 }) {
			c.Inc("skipped_huge_minimum")
			continue
		}
		huge := w.R.AnyRep(w.Root, func(r *ref.Rep) bool { return r.Min >= 1<<30 })
		bad := ""
		prod := map[string]bool{}
		reach := w.R.Reach(w.Root)
		reach[ref.Lower(w.Root)] = true
		for n := range reach {
			if w.R.Find(n) == nil {
				bad = "undefined " + n
				continue
			}
			prod[n] = w.R.Productive(n)
			if !prod[n] {
				bad = "non-productive " + n
			}
		}
		if bad == "" && ref.Analyse(w.R, w.Root).Rule(w.Root) > 20000 {
			c.Inc("skipped_long_words")
			continue
		}
		ju := newJudge(w)
		for k := 0; k < 3; k++ {
			var opts []goabnf.ASTGenOption
			desc := ""
			if k > 0 {
				d := []int{0, 1, 3, 8, 32, 200, -1, 1 << 30}[c.Rng.IntN(8)]
				l := []int{0, 1, 7, 30, 80, -2}[c.Rng.IntN(6)]
				r := []int{0, 1, 2, 5, 16, -1}[c.Rng.IntN(6)]
				if d > 100 && l > 30 {
					l = 30
				}
				opts = append(opts, goabnf.WithMaxDepth(d), goabnf.WithMaxLen(l), goabnf.WithMaxRepeat(r))
				desc = fmt.Sprintf(" depth=%d len=%d rep=%d", d, l, r)
			}
			root := spellings(c, w.Root)
			c.Note("NewASTGenerator(%q)%s of %s", root, desc, w.Text)
			ag, err := goabnf.NewASTGenerator(w.L, root, opts...)
			if err != nil && bad == "" && huge {
				// a word of over 2^30 bytes is as good as none
				c.Inc("refused_too_long")
				break
			}
			if (err != nil) != (bad != "") {
				c.Fail("NewASTGenerator "+w.Text, "NewASTGenerator(%q): error %v, but the rule's trouble is %q\n%s", root, err, bad, w.Text)
				break
			}
			if err != nil {
				c.Eval(true, w.Text, "err")
				c.Inc("refused")
				break
			}
			nt := 8
			if kind == "directed" {
				nt = 24
			}
			for ti, t := range tapes(c, nt) {
				cp := append([]byte{}, t...)
				c.Note("ASTGenerator(%q)%s.Generate(%x) of %s", root, desc, t, w.Text)
				out := ag.Generate(t)
				out2 := ag.Generate(cp)
				if !bytes.Equal(out, out2) {
					c.Fail("ASTGenerator-unstable "+w.Text, "Generate(%x)%s gives %q then %q\n%s", t, desc, out, out2, w.Text)
				}
				if !bytes.Equal(t, cp) {
					c.Fail("ASTGenerator-tape", "Generate modified its tape")
				}
				outs := [][]byte{out}
				if ti%3 == 0 {
					s := c.Rng.Int64()
					c.Note("ASTGenerator(%q)%s.GenerateRand(%d) of %s", root, desc, s, w.Text)
					o := ag.GenerateRand(rand.New(rand.NewSource(s)))
					o2 := ag.GenerateRand(rand.New(rand.NewSource(s)))
					if !bytes.Equal(o, o2) {
						c.Fail("ASTGenerator-unstable "+w.Text, "GenerateRand gives %q then %q", o, o2)
					}
					outs = append(outs, o)
				}
				for _, o := range outs {
					in, done := ju.member(o)
					if !done {
						c.Inc("undecided_long_words")
						continue
					}
					c.Eval(len(o) > 0, w.Text, w.Root, string(o))
					c.Inc("words")
					c.Inc(lenBucket(len(o)))
					if !in {
						c.Fail("ASTGenerator "+w.Text, "ASTGenerator(%q)%s tape %x yields %q, not in the rule's language (%s)\n%s", root, desc, t, o, w.Via, w.Text)
					}
				}
				if ti < 4 && kind == "directed" {
					c.Sample("%s tape %x => %q", w.Text, t, out)
				}
			}
		}
		if c.Rng.IntN(3) == 0 {
			_, err := goabnf.NewASTGenerator(w.L, "no-such-rule")
			var nf *goabnf.ErrRuleNotFound
			if !errors.As(err, &nf) {
				c.Fail("NewASTGenerator-unknown", "NewASTGenerator of an unknown rule: error %v, want ErrRuleNotFound", err)
			}
		}
	}
}

// -------------------------------------------------------- transition graphs

type tgFlags struct{ rules, nums, chars bool }

func (f tgFlags) opts(extra ...goabnf.TGOption) []goabnf.TGOption {
	return append([]goabnf.TGOption{goabnf.WithDeflateRules(f.rules), goabnf.WithDeflateNumVals(f.nums), goabnf.WithDeflateCharVals(f.chars)}, extra...)
}
func (f tgFlags) String() string {
	return fmt.Sprintf("deflate rules=%v nums=%v chars=%v", f.rules, f.nums, f.chars)
}

const tgNodes = 700

// overThreshold reports a repetition the graph builder must refuse, among the
// rules it expands.
func overThreshold(w *Work, rules bool, th int) bool {
	bad := func(r *ref.Rep) bool {
		if r.Max == ref.Inf {
			return r.Min > 1 && r.Min > th
		}
		return r.Max > 1 && r.Max > th
	}
	if rules {
		return w.R.AnyRep(w.Root, bad)
	}
	hit := false
	ref.WalkAlt(w.R.Find(w.Root).Alt, func(r *ref.Rep) { hit = hit || bad(r) })
	return hit
}

func localRep(w *Work, rules bool, f func(*ref.Rep) bool) bool {
	if rules {
		return w.R.AnyRep(w.Root, f)
	}
	hit := false
	ref.WalkAlt(w.R.Find(w.Root).Alt, func(r *ref.Rep) { hit = hit || f(r) })
	return hit
}

// buildTG builds a transition graph and checks refusals; nil when there is no
// graph to look at.
func buildTG(c *Case, w *Work, f tgFlags, judge bool, extra ...goabnf.TGOption) *goabnf.TransitionGraph {
	root := spellings(c, w.Root)
	c.Note("TransitionGraph(%q) %s of %s", root, f, w.Text)
	tg, err := w.L.TransitionGraph(root, f.opts(append([]goabnf.TGOption{goabnf.WithMaxNodes(tgNodes)}, extra...)...)...)
	if !judge {
		if err != nil {
			return nil
		}
		return tg
	}
	var mn *goabnf.ErrMaxNodesExceeded
	var ce *goabnf.ErrCyclicRule
	cyc, undef := w.R.ContainsCycle(w.Root), w.R.UndefReach(w.Root)
	prose := localRep(w, f.rules, func(r *ref.Rep) bool { return r.Elem.Kind == ref.KProse })
	over := overThreshold(w, f.rules, 256)
	minmax := localRep(w, f.rules, func(r *ref.Rep) bool { return r.Max != ref.Inf && r.Min > r.Max })
	// with rules expanded the whole grammar has to be semantically valid
	sem := f.rules && len(w.R.SemKinds()) > 0
	switch {
	case err == nil && tg == nil:
		c.Fail("TG-nil "+w.Text, "TransitionGraph(%q) %s: no graph and no error", root, f)
	case err == nil && (cyc || undef && f.rules || prose || over):
		c.Fail("TG-accepts "+w.Text, "TransitionGraph(%q) %s accepted although recursion=%v undefined=%v prose=%v over-threshold=%v\n%s", root, f, cyc, undef, prose, over, w.Text)
	case err == nil:
		return tg
	case errors.As(err, &mn):
		c.Inc("skipped_max_nodes")
	case cyc && errors.As(err, &ce), undef, prose && errors.Is(err, goabnf.ErrProseValInTransitionGraph), over && errors.Is(err, goabnf.ErrRepetitionThreshold), minmax, sem:
		c.Eval(true, w.Text, f.String())
		c.Inc("refused")
	default:
		c.Fail("TG-refuses "+w.Text, "TransitionGraph(%q) %s: error %T %v although recursion=%v undefined=%v prose=%v over-threshold=%v\n%s", root, f, err, err, cyc, undef, prose, over, w.Text)
	}
	return nil
}

type tgView struct {
	nodes   []*goabnf.Node
	elems   map[*goabnf.Node]*ref.Elem
	idx     map[*goabnf.Node]int
	entries []*goabnf.Node
	ends    map[*goabnf.Node]bool
	empty   bool // empty entrypoint
	emptyE  bool // empty endpoint
}

// viewTG reads the graph through its exported fields.
func viewTG(tg *goabnf.TransitionGraph) (*tgView, error) {
	v := &tgView{elems: map[*goabnf.Node]*ref.Elem{}, idx: map[*goabnf.Node]int{}, ends: map[*goabnf.Node]bool{}}
	ids := map[string]bool{}
	var st []*goabnf.Node
	for _, e := range tg.Entrypoints {
		if e == nil {
			v.empty = true
			continue
		}
		v.entries = append(v.entries, e)
		st = append(st, e)
	}
	for len(st) > 0 {
		n := st[len(st)-1]
		st = st[:len(st)-1]
		if _, ok := v.idx[n]; ok {
			continue
		}
		v.idx[n] = len(v.nodes)
		v.nodes = append(v.nodes, n)
		e, err := bridge.LiftElem(n.Elem)
		if err != nil {
			return nil, err
		}
		v.elems[n] = e
		if ids[n.ID] || n.ID == "" {
			return nil, fmt.Errorf("node ID %q is not unique", n.ID)
		}
		ids[n.ID] = true
		for _, x := range n.Nexts {
			if x == nil {
				return nil, fmt.Errorf("nil successor")
			}
			st = append(st, x)
		}
	}
	for _, e := range tg.Endpoints {
		if e == nil {
			v.emptyE = true
			continue
		}
		v.ends[e] = true
	}
	return v, nil
}

// usable marks nodes from which an endpoint can be reached.
func (v *tgView) usable() map[*goabnf.Node]bool {
	rev := map[*goabnf.Node][]*goabnf.Node{}
	for _, n := range v.nodes {
		for _, x := range n.Nexts {
			rev[x] = append(rev[x], n)
		}
	}
	u := map[*goabnf.Node]bool{}
	var st []*goabnf.Node
	for n := range v.ends {
		if _, ok := v.idx[n]; ok {
			u[n] = true
			st = append(st, n)
		}
	}
	for len(st) > 0 {
		n := st[len(st)-1]
		st = st[:len(st)-1]
		for _, p := range rev[n] {
			if !u[p] {
				u[p] = true
				st = append(st, p)
			}
		}
	}
	return u
}

// shortWalks counts the shortest accepting walks, unless more than limit
// walks come first.
func (v *tgView) shortWalks(u map[*goabnf.Node]bool, limit int) (acc int) {
	if v.empty && v.emptyE {
		acc++
	}
	cur := map[*goabnf.Node]int{}
	for _, e := range v.entries {
		if u[e] {
			cur[e]++
		}
	}
	for sum := 0; len(cur) > 0; {
		lvl := 0
		for n, k := range cur {
			sum += k
			if v.ends[n] {
				lvl += k
			}
		}
		if sum > limit {
			return
		}
		if lvl > 0 {
			return acc + lvl // shortest accepting walks are trails
		}
		nx := map[*goabnf.Node]int{}
		for n, k := range cur {
			for _, x := range n.Nexts {
				if u[x] {
					nx[x] = min(nx[x]+k, limit+1)
				}
			}
		}
		cur = nx
	}
	return
}

// nfa turns the graph into an automaton; rule nodes are spliced from the
// reference grammar.
func (v *tgView) nfa(w *Work, limit int) *ref.NFA {
	n := ref.NewNFA()
	in, out := make([]int, len(v.nodes)), make([]int, len(v.nodes))
	for i, nd := range v.nodes {
		e := v.elems[nd]
		if e.Kind == ref.KRule {
			s, f := n.Splice(w.R, e.Name, limit)
			if s < 0 {
				return nil
			}
			in[i], out[i] = s, f
		} else {
			in[i], out[i] = n.Term(e)
		}
		if n.Size() > limit {
			return nil
		}
	}
	for i, nd := range v.nodes {
		for _, x := range nd.Nexts {
			n.Eps(out[i], in[v.idx[x]])
		}
		if v.ends[nd] {
			n.Eps(out[i], n.Final())
		}
	}
	for _, e := range v.entries {
		n.Eps(n.Start(), in[v.idx[e]])
	}
	if v.empty && v.emptyE {
		n.Eps(n.Start(), n.Final())
	}
	n.Close()
	return n
}

func flagsOf(c *Case, k int) tgFlags {
	return tgFlags{k&1 != 0, k&2 != 0, k&4 != 0}
}

func c10(c *Case) {
	ws, kind := regWork(c)
	if c.Idx%53 == 9 {
		if w := countedWork(c, 101); w != nil {
			ws = append(ws, w)
		}
	}
	for _, w := range ws {
		ks := []int{0, 1, 2, 3, 4, 5, 6, 7}
		if kind == "random" {
			c.Rng.Shuffle(8, func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
			ks = ks[:4]
		}
		want := ref.BuildNFA(w.R, w.Root, 20000)
		for _, k := range ks {
			f := flagsOf(c, k)
			tg := buildTG(c, w, f, true)
			if tg == nil {
				continue
			}
			if want == nil {
				c.Inc("skipped_nfa_size")
				continue
			}
			v, err := viewTG(tg)
			if err != nil {
				c.Fail("TG-shape "+w.Text, "TransitionGraph(%q) %s: %v\n%s", w.Root, f, err, w.Text)
				continue
			}
			c.Eval(len(v.nodes) > 0, w.Text, f.String())
			c.Add("nodes", len(v.nodes))
			if v.empty != v.emptyE {
				c.Fail("TG-empty "+w.Text, "TransitionGraph(%q) %s: the empty node is an entrypoint: %v, an endpoint: %v\n%s", w.Root, f, v.empty, v.emptyE, w.Text)
				continue
			}
			for _, n := range v.nodes {
				e := v.elems[n]
				bad := ""
				switch e.Kind {
				case ref.KRule:
					if f.rules {
						bad = "an unexpanded rule node"
					}
				case ref.KNum:
					if f.nums && (e.Range || len(e.Vals) != 1) {
						bad = "a num-val node of several values"
					}
				case ref.KStr:
					if f.chars && len([]rune(e.Str)) != 1 {
						bad = "a char-val node of several characters"
					} else if r, _ := utf8.DecodeRuneInString(e.Str); f.chars && !e.Sens && (r|32 >= 'a' && r|32 <= 'z') {
						bad = "a char-val node of both cases"
					}
				default:
					bad = "a composite node"
				}
				if bad != "" {
					c.Fail("TG-deflate "+w.Text, "TransitionGraph(%q) %s has %s %s\n%s", w.Root, f, bad, e, w.Text)
					break
				}
			}
			got := v.nfa(w, 60000)
			if got == nil {
				c.Inc("skipped_nfa_size")
				continue
			}
			eq, done, cex, n := ref.Equal(want, got, 4000)
			switch {
			case !done:
				c.Inc("equivalence_undecided")
				for _, in := range w.Inputs(c, 20, 12) {
					if a, b := want.Match(in), got.Match(in); a != b {
						c.Fail("TG "+w.Key(string(in)), "TransitionGraph(%q) %s spells %q: %v, the language says %v\n%s", w.Root, f, in, b, a, w.Text)
					}
				}
			case !eq:
				in := string(cex)
				c.Fail("TG "+w.Key(in), "TransitionGraph(%q) %s spells %q: %v, the language says %v (%s)\n%s", w.Root, f, in, got.Match([]byte(in)), ref.Member(w.R, w.Root, []byte(in)), w.Via, w.Text)
			default:
				c.Inc("equivalence_decided")
				c.Add("product_states", n)
			}
		}
		if kind == "directed" {
			c.Sample("%s", w.Text)
		}
		if c.Rng.IntN(3) == 0 {
			_, err := w.L.TransitionGraph("no-such-rule")
			var nf *goabnf.ErrRuleNotFound
			if !errors.As(err, &nf) {
				c.Fail("TG-unknown", "TransitionGraph of an unknown rule: error %v, want ErrRuleNotFound", err)
			}
		}
	}
}

func genFlags(c *Case) tgFlags {
	return tgFlags{true, c.Rng.IntN(3) == 0, c.Rng.IntN(3) == 0}
}

// ------------------------------------------------------------ C09 Generator

func genOpts(c *Case) (opts []goabnf.GenOption, desc string) {
	if c.Rng.IntN(3) == 0 {
		return []goabnf.GenOption{goabnf.WithMaxLength(60)}, " length=60"
	}
	l := []int{0, 1, 5, 20, 60, -1}[c.Rng.IntN(6)]
	r := []int{0, 1, 2, 5, 32, -1, 1 << 40}[c.Rng.IntN(7)]
	s := []int{0, 1, 3, 10, 100, -1, 100000}[c.Rng.IntN(7)]
	opts = append(opts, goabnf.WithMaxLength(l), goabnf.WithMaxReps(r), goabnf.WithMaxSteps(s))
	desc = fmt.Sprintf(" length=%d reps=%d steps=%d", l, r, s)
	if c.Rng.IntN(2) == 0 {
		opts = append(opts, goabnf.WithStableAddressing())
		desc += " stable"
	}
	return
}

func c09(c *Case) {
	ws, kind := regWork(c)
	for _, w := range ws {
		if !w.R.Productive(w.Root) {
			c.Inc("skipped_empty_language")
			continue
		}
		nfa := ref.BuildNFA(w.R, w.Root, 20000)
		if nfa == nil {
			c.Inc("skipped_recursive_or_large")
			continue
		}
		rounds := 2
		if kind == "directed" {
			rounds = 5
		}
		for k := 0; k < rounds; k++ {
			f := genFlags(c)
			tg := buildTG(c, w, f, false)
			if tg == nil {
				c.Inc("no_graph")
				continue
			}
			opts, desc := genOpts(c)
			ge, err := goabnf.NewGenerator(tg, opts...)
			if err != nil {
				c.Fail("NewGenerator "+w.Text, "NewGenerator of an expanded graph: %v\n%s", err, w.Text)
				continue
			}
			for ti, t := range tapes(c, 14) {
				c.Note("Generator %s%s.Generate(%x) of %s", f, desc, t, w.Text)
				out := ge.Generate(t)
				if o2 := ge.Generate(append([]byte{}, t...)); !bytes.Equal(out, o2) {
					c.Fail("Generator-unstable "+w.Text, "Generate(%x)%s gives %q then %q\n%s", t, desc, out, o2, w.Text)
				}
				outs := [][]byte{out}
				if ti%3 == 0 {
					s := c.Rng.Int64()
					c.Note("Generator %s%s.GenerateRand(%d) of %s", f, desc, s, w.Text)
					o := ge.GenerateRand(rand.New(rand.NewSource(s)))
					if o2 := ge.GenerateRand(rand.New(rand.NewSource(s))); !bytes.Equal(o, o2) {
						c.Fail("Generator-unstable "+w.Text, "GenerateRand gives %q then %q", o, o2)
					}
					outs = append(outs, o)
				}
				for _, o := range outs {
					c.Eval(len(o) > 0, w.Text, w.Root, string(o))
					c.Inc("words")
					if !nfa.Match(o) {
						c.Fail("Generator "+w.Text, "Generator %s%s tape %x yields %q, not in the rule's language (%s)\n%s", f, desc, t, o, w.Via, w.Text)
					}
				}
				if ti < 3 && kind == "directed" {
					c.Sample("%s tape %x => %q", w.Text, t, out)
				}
			}
		}
		// an unexpanded graph is refused
		if tg := buildTG(c, w, tgFlags{}, false); tg != nil {
			v, err := viewTG(tg)
			if err != nil {
				continue
			}
			hasRule := false
			for _, e := range v.elems {
				hasRule = hasRule || e.Kind == ref.KRule
			}
			_, err = goabnf.NewGenerator(tg)
			if (err != nil) != hasRule {
				c.Fail("NewGenerator-unexpanded "+w.Text, "NewGenerator: error %v, the graph has rule nodes: %v\n%s", err, hasRule, w.Text)
			}
			c.Inc("unexpanded_checked")
		}
	}
}

// --------------------------------------------------------------- C11 Reader

// narrow tells whether every terminal node stands for few enough strings for a
// reader, which writes them all out, to get through.
func (v *tgView) narrow() bool {
	for _, e := range v.elems {
		if _, ok := variants(e, 4096); !ok {
			return false
		}
	}
	return true
}

// variants lists the strings a terminal node stands for.
func variants(e *ref.Elem, limit int) ([]string, bool) {
	switch e.Kind {
	case ref.KStr:
		out := []string{""}
		for _, r := range e.Str {
			l := r | 32
			both := !e.Sens && l >= 'a' && l <= 'z' && r < 128
			var nx []string
			for _, p := range out {
				if both {
					nx = append(nx, p+string(l), p+string(l^32))
				} else {
					nx = append(nx, p+string(r))
				}
			}
			out = nx
			if len(out) > limit {
				return nil, false
			}
		}
		return out, true
	case ref.KNum:
		if ref.TermDead(e) {
			return nil, true
		}
		if !e.Range {
			s := ""
			for _, v := range e.Vals {
				s += string(ref.RuneValue(v, e.Base))
			}
			return []string{s}, true
		}
		lo, hi := ref.RuneValue(e.Vals[0], e.Base), min(ref.RuneValue(e.Vals[1], e.Base), utf8.MaxRune)
		if int(hi-lo) > limit+2048 {
			return nil, false
		}
		var out []string
		for r := lo; r <= hi; r++ {
			if ref.ValidScalar(r) {
				out = append(out, string(r))
			}
		}
		return out, len(out) <= limit
	}
	return nil, false
}

// c11wide reads out graphs of one terminal that stands for many strings.
func c11wide(c *Case) {
	var x string
	var e *ref.Elem
	f := tgFlags{true, false, false}
	if c.Rng.IntN(2) == 0 {
		n := 9 + c.Rng.IntN(5)
		if c.Idx/400%8 == 0 {
			n = 16
		}
		b := []byte{}
		for k := 0; k < n; k++ {
			b = append(b, "azmAZKks"[c.Rng.IntN(8)])
			if c.Rng.IntN(5) == 0 {
				b = append(b, "019-@[`{"[c.Rng.IntN(8)])
			}
		}
		x, e = `"`+string(b)+`"`, &ref.Elem{Kind: ref.KStr, Str: string(b)}
		f.chars = n <= 10 && c.Rng.IntN(2) == 0
	} else {
		lo := []int{0, 1, 0x61, 0x7f, 0xff, 0x7fe, 0xd000, 0xfff0}[c.Rng.IntN(8)]
		hi := lo + []int{254, 255, 256, 257, 1000, 4095, 4096, 4097, 32768, 65535, 65536, 70000}[c.Rng.IntN(12)]
		if c.Idx/400%8 == 0 {
			lo, hi = 0, 0x10ffff
		}
		base, lob, hib := "x", fmt.Sprintf("%x", lo), fmt.Sprintf("%X", hi)
		if c.Rng.IntN(3) == 0 {
			base, lob, hib = "d", fmt.Sprint(lo), fmt.Sprint(hi)
		}
		x, e = "%"+base+lob+"-"+hib, &ref.Elem{Kind: ref.KNum, Base: base[0], Range: true, Vals: []string{lob, hib}}
		f.nums = hi-lo < 1500 && c.Rng.IntN(2) == 0
	}
	vs, ok := variants(e, 1<<21)
	if !ok {
		return
	}
	want := map[string]bool{}
	var text string
	switch c.Rng.IntN(4) {
	case 0:
		text = "s = " + x + "\r\n"
		for _, v := range vs {
			want[v] = true
		}
	case 1:
		text = "s = %s\"-Q\" a\r\na = " + x + "\r\n"
		for _, v := range vs {
			want["-Q"+v] = true
		}
	case 2:
		text = "s = " + x + " %d33 / %x3F.3F\r\n"
		for _, v := range vs {
			want[v+"!"] = true
		}
		want["??"] = true
	case 3:
		text = "s = [(" + x + ")]\r\n"
		for _, v := range vs {
			want[v] = true
		}
		want[""] = true
	}
	g, err := goabnf.ParseABNF([]byte(text))
	if err != nil {
		c.Fail("Wide-parse "+text, "ParseABNF refuses %q: %v", text, err)
		return
	}
	tg, err := g.TransitionGraph("s", f.opts()...)
	if err != nil {
		c.Fail("Wide-graph "+text, "TransitionGraph %s refuses %q: %v", f, text, err)
		return
	}
	for _, mode := range []goabnf.CoverageMode{goabnf.CoverageAllTrails, goabnf.CoverageCompact} {
		if mode == goabnf.CoverageCompact && f.chars {
			continue // nodes, edges and values are covered by few strings
		}
		c.Note("Reader mode %d %s of %s", mode, f, text)
		rd := tg.Reader(goabnf.WithCoverageMode(mode))
		got := map[string]bool{}
		n := 0
		for rd.Next() && n <= 4*len(want)+100 {
			b := rd.Scan()
			n++
			if !want[string(b)] {
				c.Fail("Wide-extra "+text, "reader in mode %d (%s) emits %q, not in the rule's language\n%s", mode, f, b, text)
				return
			}
			got[string(b)] = true
		}
		c.Eval(true, "wide", text, f.String(), fmt.Sprint(mode))
		c.Inc("wide terminals read out")
		c.Add("strings of wide terminals", n)
		if n > 4*len(want)+100 {
			c.Fail("Wide-endless "+text, "reader in mode %d (%s) emits over %d strings for the %d of the language\n%s", mode, f, n, len(want), text)
			return
		}
		if len(got) != len(want) {
			for v := range want {
				if !got[v] {
					c.Fail("Wide-misses "+text, "reader in mode %d (%s) never emits %q\n%s", mode, f, v, text)
					return
				}
			}
		}
	}
}

func c11(c *Case) {
	if c.Idx%400 == 399 {
		c11wide(c)
		return
	}
	ws, kind := regWork(c)
	for _, w := range ws {
		nfa := ref.BuildNFA(w.R, w.Root, 20000)
		if nfa == nil {
			c.Inc("skipped_recursive_or_large")
			continue
		}
		rounds := 1
		if kind == "directed" {
			rounds = 3
		}
		for k := 0; k < rounds; k++ {
			f := genFlags(c)
			tg := buildTG(c, w, f, false)
			if tg == nil {
				c.Inc("no_graph")
				continue
			}
			v, err := viewTG(tg)
			if err != nil {
				c.Fail("TG-shape "+w.Text, "TransitionGraph(%q) %s: %v\n%s", w.Root, f, err, w.Text)
				continue
			}
			vs := map[*goabnf.Node][]string{}
			ok := true
			for _, n := range v.nodes {
				x, o := variants(v.elems[n], 400)
				if !o {
					ok = false
					break
				}
				vs[n] = x
			}
			if !ok || len(v.nodes) > 3000 {
				c.Inc("wide_graphs")
			}
			c11trails(c, w, f, tg, v, vs, ok, nfa)
			if ok && len(v.nodes) <= 3000 {
				c11compact(c, w, f, tg, v, vs, nfa)
			}
		}
	}
}

// c11trails compares all-trails mode with an independent enumeration.
func c11trails(c *Case, w *Work, f tgFlags, tg *goabnf.TransitionGraph, v *tgView, vs map[*goabnf.Node][]string, narrow bool, nfa *ref.NFA) {
	const budget = 1500
	want := map[string]bool{}
	total, steps, safe := 0, 0, 0
	complete := narrow
	u := v.usable()
	if narrow {
		type ed struct{ a, b *goabnf.Node }
		used := map[ed]bool{}
		var path []*goabnf.Node
		var emit func(i int, pre string) bool
		emit = func(i int, pre string) bool {
			if i == len(path) {
				total++
				want[pre] = true
				return total <= budget
			}
			for _, s := range vs[path[i]] {
				if !emit(i+1, pre+s) {
					return false
				}
			}
			return true
		}
		var walk func(n *goabnf.Node) bool
		walk = func(n *goabnf.Node) bool {
			steps++
			if steps > 20000 || len(path) > 400 {
				return false
			}
			path = append(path, n)
			defer func() { path = path[:len(path)-1] }()
			if v.ends[n] && !emit(0, "") {
				return false
			}
			for _, x := range n.Nexts {
				e := ed{n, x}
				if used[e] || !u[x] {
					continue
				}
				used[e] = true
				r := walk(x)
				used[e] = false
				if !r {
					return false
				}
			}
			return true
		}
		if v.empty && v.emptyE {
			want[""] = true
			total++
		}
		for _, e := range v.entries {
			if u[e] && !walk(e) {
				complete = false
				break
			}
		}
	}
	if !complete {
		// the reader goes by increasing length: only ask for strings that
		// come before the number of walks explodes
		safe = min(200, v.shortWalks(u, 20000))
		if safe == 0 {
			c.Inc("trails_exploding")
			return
		}
	}
	c.Note("Reader all trails %s of %s", f, w.Text)
	rd := tg.Reader()
	if c.Rng.IntN(2) == 0 {
		rd = tg.Reader(goabnf.WithCoverageMode(goabnf.CoverageAllTrails))
	}
	got := map[string]bool{}
	n := 0
	lim := safe
	if complete {
		lim = 4*budget + 100
	}
	twice := c.Rng.IntN(2) == 0
	for n < lim && rd.Next() {
		if twice && !rd.Next() {
			c.Fail("Reader-next "+w.Text, "Next is true then false without a Scan\n%s", w.Text)
		}
		b := rd.Scan()
		n++
		if got[string(b)] {
			continue
		}
		got[string(b)] = true
		c.Eval(len(b) > 0, w.Text, f.String(), string(b))
		if !nfa.Match(b) {
			c.Fail("Reader "+w.Text, "all-trails reader (%s) emits %q, not in the rule's language (%s)\n%s", f, b, w.Via, w.Text)
			return
		}
	}
	c.Add("trail_strings", n)
	if !complete {
		c.Inc("trails_sampled")
		return
	}
	c.Inc("trails_exhaustive")
	if n >= lim {
		c.Fail("Reader-endless "+w.Text, "all-trails reader (%s) emitted %d strings, the graph has %d trail variations\n%s", f, n, total, w.Text)
		return
	}
	if rd.Next() || rd.Scan() != nil {
		c.Fail("Reader-end "+w.Text, "the reader goes on after its end\n%s", w.Text)
	}
	for s := range want {
		if !got[s] {
			c.Fail("Reader-misses "+w.Text, "all-trails reader (%s) never emits %q\n%s", f, s, w.Text)
			return
		}
	}
	for s := range got {
		if !want[s] {
			c.Fail("Reader-extra "+w.Text, "all-trails reader (%s) emits %q, spelt by no trail\n%s", f, s, w.Text)
			return
		}
	}
	if n > 3 {
		c.Sample("%s (%s): %d trail strings", w.Text, f, n)
	}
}

// c11compact checks that compact mode covers the usable graph.
func c11compact(c *Case, w *Work, f tgFlags, tg *goabnf.TransitionGraph, v *tgView, vs map[*goabnf.Node][]string, nfa *ref.NFA) {
	u := v.usable()
	type ed struct{ a, b *goabnf.Node }
	type val struct {
		n *goabnf.Node
		s string
	}
	needN, needE, needV := map[*goabnf.Node]bool{}, map[ed]bool{}, map[val]bool{}
	for _, n := range v.nodes {
		if !u[n] {
			continue
		}
		needN[n] = true
		for _, s := range vs[n] {
			needV[val{n, s}] = true
		}
		for _, x := range n.Nexts {
			if u[x] {
				needE[ed{n, x}] = true
			}
		}
	}
	if len(needN)+len(needE)+len(needV) > 1500 {
		c.Inc("compact_skipped_large")
		return
	}
	needEmpty := v.empty && v.emptyE
	bound := 4*(len(needN)+len(needE)+len(needV)) + 10
	c.Note("Reader compact %s of %s", f, w.Text)
	rd := tg.Reader(goabnf.WithCoverageMode(goabnf.CoverageCompact))
	n := 0
	seen := map[string]bool{}
	for rd.Next() {
		b := rd.Scan()
		n++
		if n > bound {
			c.Fail("Compact-endless "+w.Text, "compact reader (%s) emitted %d strings for %d nodes, %d edges and %d values\n%s", f, n, len(needN), len(needE), len(needV), w.Text)
			return
		}
		if seen[string(b)] {
			continue
		}
		seen[string(b)] = true
		c.Eval(len(b) > 0, w.Text, f.String(), "compact", string(b))
		if !nfa.Match(b) {
			c.Fail("Compact "+w.Text, "compact reader (%s) emits %q, not in the rule's language (%s)\n%s", f, b, w.Via, w.Text)
			return
		}
		if len(b) == 0 {
			needEmpty = false
		}
		if len(needN)+len(needE)+len(needV) == 0 {
			continue
		}
		// every node, edge and value on some accepting walk spelling b
		type st struct {
			n *goabnf.Node
			i int
		}
		s := string(b)
		fw := map[st]bool{}
		type trn struct {
			from st
			v    string
			end  int
		}
		var trs []trn
		var stack []st
		push := func(x st) {
			if !fw[x] {
				fw[x] = true
				stack = append(stack, x)
			}
		}
		for _, e := range v.entries {
			push(st{e, 0})
		}
		for len(stack) > 0 {
			x := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if end := ref.MatchTerm(v.elems[x.n], b, x.i); end >= 0 {
				trs = append(trs, trn{x, s[x.i:end], end})
				for _, y := range x.n.Nexts {
					push(st{y, end})
				}
			}
		}
		bw := map[st]bool{}
		sort.SliceStable(trs, func(i, j int) bool { return trs[i].from.i > trs[j].from.i })
		for ch := true; ch; { // one round, but for terminals spelling nothing
			ch = false
			for _, t := range trs {
				if bw[t.from] {
					continue
				}
				ok := t.end == len(b) && v.ends[t.from.n]
				for _, y := range t.from.n.Nexts {
					ok = ok || bw[st{y, t.end}]
				}
				if ok {
					bw[t.from] = true
					ch = ch || t.end == t.from.i
				}
			}
		}
		for _, t := range trs {
			if !bw[t.from] {
				continue
			}
			delete(needN, t.from.n)
			delete(needV, val{t.from.n, t.v})
			for _, y := range t.from.n.Nexts {
				if bw[st{y, t.end}] {
					delete(needE, ed{t.from.n, y})
				}
			}
		}
	}
	c.Add("compact_strings", n)
	c.Inc("compact_graphs")
	if rd.Next() || rd.Scan() != nil {
		c.Fail("Compact-end "+w.Text, "the reader goes on after its end\n%s", w.Text)
	}
	var miss []string
	for x := range needN {
		miss = append(miss, "node "+v.elems[x].String())
	}
	for x := range needE {
		miss = append(miss, "edge "+v.elems[x.a].String()+" -> "+v.elems[x.b].String())
	}
	for x := range needV {
		miss = append(miss, fmt.Sprintf("value %q of %s", x.s, v.elems[x.n]))
	}
	if needEmpty {
		miss = append(miss, "the empty word")
	}
	if len(miss) > 0 {
		sort.Strings(miss)
		c.Fail("Compact-misses "+w.Text, "compact reader (%s) never exercises %s\n%s", f, strings.Join(miss[:min(len(miss), 5)], ", "), w.Text)
	}
}

// ------------------------------------------------------------- C12 NearMiss

var (
	labelRange = regexp.MustCompile(`^byte at offset (\d+) is one (below|above) num-val range %([bdxBDX])([0-9a-fA-F]+)-([0-9a-fA-F]+)$`)
	labelSubst = regexp.MustCompile(`^byte at offset (\d+) substituted with 0x([0-9a-f]{2})$`)
	labelTrunc = regexp.MustCompile(`^truncated by (\d+) byte\(s\) \(len (\d+)\)$`)
	labelTrail = regexp.MustCompile(`^trailing byte 0x([0-9a-f]{2}) appended$`)
	labelDel   = regexp.MustCompile(`^byte at offset (\d+) deleted$`)
)

// labelled applies the edit a label speaks of to the production it started
// from; known is false for a label that is worded in another way.
func labelled(base []byte, label string) (out []byte, known bool) {
	num := func(s string, b int) int { n, _ := strconv.ParseInt(s, b, 64); return int(n) }
	cat := func(a ...[]byte) []byte { return append([]byte{}, bytes.Join(a, nil)...) }
	if m := labelRange.FindStringSubmatch(label); m != nil {
		off := num(m[1], 10)
		if off >= len(base) {
			return nil, true
		}
		b := ref.Lower(m[3])[0]
		lo, hi := ref.RuneValue(m[4], b), ref.RuneValue(m[5], b)
		r, n := utf8.DecodeRune(base[off:])
		if r < lo || r > hi {
			return nil, true // not one of the range's
		}
		x := lo - 1
		if m[2] == "above" {
			x = min(hi, utf8.MaxRune) + 1
		}
		if !ref.ValidScalar(x) {
			return nil, false // has no encoding
		}
		return cat(base[:off], []byte(string(x)), base[off+n:]), true
	}
	if m := labelSubst.FindStringSubmatch(label); m != nil {
		off := num(m[1], 10)
		if off >= len(base) {
			return nil, true
		}
		return cat(base[:off], []byte{byte(num(m[2], 16))}, base[off+1:]), true
	}
	if m := labelTrunc.FindStringSubmatch(label); m != nil {
		n, l := num(m[1], 10), num(m[2], 10)
		if n > len(base) || n < 1 || l != len(base)-n {
			return nil, true
		}
		return cat(base[:l]), true
	}
	if m := labelTrail.FindStringSubmatch(label); m != nil {
		return cat(base, []byte{byte(num(m[1], 16))}), true
	}
	if m := labelDel.FindStringSubmatch(label); m != nil {
		off := num(m[1], 10)
		if off >= len(base) {
			return nil, true
		}
		return cat(base[:off], base[off+1:]), true
	}
	return nil, false
}

func c12(c *Case) {
	ws, kind := regWork(c)
	for _, w := range ws {
		nfa := ref.BuildNFA(w.R, w.Root, 20000)
		if nfa == nil {
			c.Inc("skipped_recursive_or_large")
			continue
		}
		rounds := 2
		if kind == "directed" {
			rounds = 4
		}
		for k := 0; k < rounds; k++ {
			f := genFlags(c)
			tg := buildTG(c, w, f, false)
			if tg == nil {
				c.Inc("no_graph")
				continue
			}
			opts, desc := genOpts(c)
			ge, err := goabnf.NewGenerator(tg, opts...)
			if err != nil {
				continue
			}
			judge := func(how string, p []byte, label string, ok bool, base []byte) {
				if !ok {
					c.Inc("no_near_miss")
					found := base != nil
					for _, x := range "\x00!A" {
						found = found && !nfa.Match(append(append([]byte{}, base...), byte(x)))
					}
					if found {
						c.Fail("NearMiss-none "+w.Text, "%s finds nothing, though no octet may follow the production %q\n%s", how, base, w.Text)
					}
					if p != nil || label != "" {
						c.Fail("NearMiss-nok "+w.Text, "%s: ok is false but production %q label %q\n%s", how, p, label, w.Text)
					}
					return
				}
				c.Eval(true, w.Text, string(p))
				c.Inc("near_misses")
				if !utf8.Valid(p) {
					c.Inc("invalid_utf8")
				}
				if label == "" {
					c.Fail("NearMiss-label "+w.Text, "%s: %q has no label\n%s", how, p, w.Text)
				}
				if base != nil {
					switch q, known := labelled(base, label); {
					case !known:
						c.Inc("labels not checked")
					case q == nil || !bytes.Equal(p, q):
						c.Fail("NearMiss-label "+w.Text, "%s: %q is not %q with %s\n%s", how, p, base, label, w.Text)
					default:
						c.Inc("labels that hold")
					}
				}
				if nfa.Match(p) {
					c.Fail("NearMiss "+w.Text, "%s: %q (%s) is in the rule's language (%s)\n%s", how, p, label, w.Via, w.Text)
				}
			}
			for ti, t := range tapes(c, 12) {
				how := fmt.Sprintf("NearMiss(%x)%s %s", t, desc, f)
				c.Note("%s of %s", how, w.Text)
				// a near miss takes up to two dozen recognitions
				t0 := time.Now()
				w.L.IsValid(w.Root, ge.Generate(t))
				if time.Since(t0) > 200*time.Millisecond {
					c.Inc("slow to recognise")
					break
				}
				p, label, ok := ge.NearMiss(t)
				p2, l2, ok2 := ge.NearMiss(append([]byte{}, t...))
				if !bytes.Equal(p, p2) || label != l2 || ok != ok2 {
					c.Fail("NearMiss-unstable "+w.Text, "%s gives %q %q %v then %q %q %v\n%s", how, p, label, ok, p2, l2, ok2, w.Text)
				}
				var base []byte
				if !strings.HasSuffix(desc, " stable") { // it starts from what Generate yields
					base = ge.Generate(t)
				}
				judge(how, p, label, ok, base)
				if ok && ti < 3 && kind == "directed" {
					c.Sample("%s => %q: %s", w.Text, p, label)
				}
				if ti%3 == 0 {
					s := c.Rng.Int64()
					p, label, ok := ge.NearMissRand(rand.New(rand.NewSource(s)))
					judge(fmt.Sprintf("NearMissRand(%d)%s %s", s, desc, f), p, label, ok, nil)
				}
			}
		}
	}
}

// --------------------------------------------------------- C13 ExpectedNext

func c13(c *Case) {
	ws, kind := regWork(c)
	for _, w := range ws {
		nfa := ref.BuildNFA(w.R, w.Root, 20000)
		if nfa == nil {
			c.Inc("skipped_recursive_or_large")
			continue
		}
		for k := 0; k < 2; k++ {
			f := genFlags(c)
			tg := buildTG(c, w, f, false)
			if tg == nil {
				c.Inc("no_graph")
				continue
			}
			ge, err := goabnf.NewGenerator(tg)
			if err != nil {
				continue
			}
			wide := w.R.AnyRep(w.Root, func(r *ref.Rep) bool {
				e := r.Elem
				return e.Kind == ref.KNum && e.Range && ref.RuneValue(e.Vals[1], e.Base)-ref.RuneValue(e.Vals[0], e.Base) >= 1<<16-1
			})
			nin := 14
			if kind == "directed" {
				nin = 40
			}
			prefixes := map[string]bool{"": true}
			for _, in := range gen.Inputs(c.Rng, w.R, w.Root, nin, 12) {
				prefixes[string(in)] = true
				for i := range in {
					if len(prefixes) < 80 {
						prefixes[string(in[:i])] = true
					}
				}
			}
			for _, p := range sortedKeys(prefixes) {
				c.Note("ExpectedNext(%q) %s of %s", p, f, w.Text)
				next, acc, ok := ge.ExpectedNext([]byte(p))
				n2, a2, o2 := ge.ExpectedNext([]byte(p))
				if !bytes.Equal(next, n2) || acc != a2 || ok != o2 {
					c.Fail("ExpectedNext-unstable "+w.Text, "ExpectedNext(%q) gives %q %v %v then %q %v %v\n%s", p, next, acc, ok, n2, a2, o2, w.Text)
				}
				if !ok {
					c.Inc("declined")
					if !wide {
						c.Fail("ExpectedNext-declined "+w.Key(p), "ExpectedNext(%q) %s declines, and no range of the rule is large\n%s", p, f, w.Text)
					}
					continue
				}
				wn, wa := nfa.Follow([]byte(p))
				c.Eval(len(wn) > 0, w.Text, p)
				c.Inc("queries")
				if len(wn) == 0 && !wa {
					c.Inc("dead_prefixes")
				}
				sort.Slice(next, func(i, j int) bool { return next[i] < next[j] })
				if !bytes.Equal(next, wn) || acc != wa {
					c.Fail("ExpectedNext "+w.Key(p), "ExpectedNext(%q) %s = %q accepts=%v, exactly %q accepts=%v (%s)\n%s", p, f, next, acc, wn, wa, w.Via, w.Text)
				}
			}
			if kind == "directed" {
				c.Sample("%s: %d prefixes", w.Text, len(prefixes))
			}
		}
	}
}

func init() {
	const reg = "a case is a directed regular/hostile grammar or 3 random (mostly non-recursive) ones; "
	register(&Prop{ID: "C06", Count: tiers(9000, 120000), Run: c06, Rule: reg + "the pattern is run on words, exhaustive short strings and mutations, and its RE2 program is compared with an independently built automaton over the product state space; non-trivial: non-empty input or refusal",
		Assume: []string{"patterns beyond RE2's own repetition limit (nested bounds above 1000) are left out"}})
	register(&Prop{ID: "C07", Count: tiers(5000, 80000), Run: c07, Rule: "a case is a directed grammar, the ABNF grammar itself or 4 random recursive/nullable/counted ones, with several seeds and option settings; non-trivial: a non-empty generated word or a refusal",
		Assume: []string{"rules whose shortest word needs more than 20000 steps are left out"}})
	register(&Prop{ID: "C08", Count: tiers(6000, 30000), Run: c08, Rule: "a case is a directed grammar, the ABNF grammar itself or 4 random ones, with several budgets, tapes and random sources; non-trivial: a non-empty word or a refusal",
		Assume: []string{"rules whose shortest word needs more than 20000 steps are left out"}})
	register(&Prop{ID: "C09", Count: tiers(15000, 300000), Run: c09, Rule: reg + "graphs under random deflate options and budgets, tapes and random sources; non-trivial: a non-empty word"})
	register(&Prop{ID: "C10", Count: tiers(10000, 80000), Run: c10, Rule: reg + "every deflate combination; the graph, read through its exported fields, is compared as an automaton with an independently built one over the product state space; non-trivial: a graph with nodes or a refusal"})
	register(&Prop{ID: "C11", Count: tiers(20000, 300000), Run: c11, Rule: reg + "all-trails output compared with an independent trail enumeration, compact output checked for coverage by re-walking the graph; non-trivial: distinct non-empty strings"})
	register(&Prop{ID: "C12", Count: tiers(8000, 30000), Run: c12, Rule: reg + "near misses of many tapes judged by an independent automaton; non-trivial: a returned near miss"})
	register(&Prop{ID: "C13", Count: tiers(12000, 200000), Run: c13, Rule: reg + "prefixes of words, mutations and all cut points (also inside UTF-8 sequences) against the exact follow set of an independent automaton; non-trivial: a prefix that can be continued"})
}

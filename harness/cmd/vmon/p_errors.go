package main

import (
	"errors"
	"fmt"
	"math/big"
	"strconv"
	"strings"

	goabnf "github.com/pandatix/go-abnf"

	"verif/bridge"
	"verif/gen"
	"verif/ref"
)

// culprits lists what the errors about a grammar or text may point at.
type culprits struct {
	core, dup, noincr, undef map[string]bool // lower-case names
	reps                     []*ref.Rep
	nums                     map[string]bool // base + value
}

func newCulprits() *culprits {
	return &culprits{map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, nil, map[string]bool{}}
}

func (k *culprits) grammar(g *ref.Grammar) {
	for _, r := range g.Rules {
		ref.WalkAlt(r.Alt, func(rp *ref.Rep) {
			if rp.Max != ref.Inf && rp.Min > rp.Max {
				k.reps = append(k.reps, rp)
			}
			switch rp.Elem.Kind {
			case ref.KRule:
				if g.Find(rp.Elem.Name) == nil {
					k.undef[ref.Lower(rp.Elem.Name)] = true
				}
			case ref.KNum:
				for _, v := range rp.Elem.Vals {
					if n := ref.NumValue(v, rp.Elem.Base); n.Cmp(big.NewInt(ref.MaxRune)) > 0 {
						k.nums[string(rp.Elem.Base)+n.String()] = true
					}
				}
			}
		})
	}
}

// blame checks that an error points at something that is really wrong.
func (k *culprits) blame(c *Case, key, asked string, err error) {
	var (
		core *goabnf.ErrCoreRuleModify
		dup  *goabnf.ErrDuplicatedRule
		nf   *goabnf.ErrRuleNotFound
		dep  *goabnf.ErrDependencyNotFound
		rep  *goabnf.ErrSemanticRepetition
		num  *goabnf.ErrTooLargeNumeral
		cyc  *goabnf.ErrCyclicRule
	)
	msg := ref.Lower(err.Error())
	name := func(kind, n string, set map[string]bool) {
		c.Inc("blamed_" + kind)
		if !set[ref.Lower(n)] {
			c.Fail(key, "%s: error %T %q names %q; culprits: %q", key, err, err, n, sortedKeys(set))
		}
		if !strings.Contains(msg, ref.Lower(n)) {
			c.Fail(key, "%s: message %q does not name %q", key, err, n)
		}
	}
	switch {
	case errors.As(err, &core):
		name("core", core.CoreRulename, k.core)
	case errors.As(err, &dup):
		name("dup", dup.Rulename, k.dup)
	case errors.As(err, &nf):
		if asked != "" {
			name("absent", nf.Rulename, map[string]bool{ref.Lower(asked): true})
		} else {
			name("noincr", nf.Rulename, k.noincr)
		}
	case errors.As(err, &dep):
		name("undef", dep.Rulename, k.undef)
	case errors.As(err, &cyc):
		name("cyclic", cyc.Rulename, map[string]bool{ref.Lower(asked): true})
	case errors.As(err, &rep):
		c.Inc("blamed_rep")
		e, lerr := bridge.LiftElem(rep.Repetition.Element)
		found := false
		for _, r := range k.reps {
			if lerr == nil && r.Min == rep.Repetition.Min && r.Max == rep.Repetition.Max {
				x := func(e *ref.Elem) *ref.Grammar {
					return &ref.Grammar{Rules: []*ref.Rule{{Name: "r", Alt: &ref.Alt{Concats: []*ref.Concat{{Reps: []*ref.Rep{{Min: 1, Max: 1, Elem: e}}}}}}}}
				}
				if ref.Diff(x(r.Elem), x(e)) == "" {
					found = true
				}
			}
		}
		if !found {
			c.Fail(key, "%s: error %q is about repetition %d*%d %v (%v), not one of the grammar with min > max", key, err, rep.Repetition.Min, rep.Repetition.Max, rep.Repetition.Element, lerr)
		}
		if !strings.Contains(err.Error(), strconv.Itoa(rep.Repetition.Min)) || !strings.Contains(err.Error(), strconv.Itoa(rep.Repetition.Max)) {
			c.Fail(key, "%s: message %q does not give the bounds %d and %d", key, err, rep.Repetition.Min, rep.Repetition.Max)
		}
	case errors.As(err, &num):
		c.Inc("blamed_num")
		b := strings.ToLower(num.Base)
		if len(b) != 1 || !ref.GoodDigits(num.Value, b[0]) {
			c.Fail(key, "%s: error %q has base %q and value %q", key, err, num.Base, num.Value)
		} else if v := b + ref.NumValue(num.Value, b[0]).String(); !k.nums[v] {
			c.Fail(key, "%s: error %q is about numeral %s, the too large ones are %q", key, err, v, sortedKeys(k.nums))
		}
		if !strings.Contains(err.Error(), num.Value) {
			c.Fail(key, "%s: message %q does not give the value %s", key, err, num.Value)
		}
	default:
		c.Inc("blame_other")
	}
}

func c27(c *Case) {
	// texts
	for i := 0; i < 5; i++ {
		text := faultText(c)
		defs, perr := ref.ParseText([]byte(text))
		if perr != nil {
			panic(perr)
		}
		for o := 0; o < 4; o++ {
			validate, redef := o&1 == 0, o&2 != 0
			k := newCulprits()
			rest := defs
			var model *ref.Grammar
			for {
				m, e := ref.Build(rest, redef)
				if e == nil {
					model = m
					break
				}
				map[string]map[string]bool{"core": k.core, "dup": k.dup, "noincr": k.noincr}[e.Kind][ref.Lower(e.Name)] = true
				rest = dropOffender(rest, redef)
			}
			k.grammar(model)
			key := fmt.Sprintf("ParseABNF validate=%v redefine=%v %q", validate, redef, text)
			c.Note("%s", key)
			_, err := goabnf.ParseABNF([]byte(text), goabnf.WithValidation(validate), goabnf.WithRedefineCoreRules(redef))
			c.Eval(err != nil, fmt.Sprint(o), text)
			if err != nil {
				k.blame(c, key, "", err)
			}
			if err != nil && i < 2 {
				_, err := goabnf.GenerateGoParserFromABNF([]byte(text), "s", "p", goabnf.WithValidation(validate), goabnf.WithRedefineCoreRules(redef))
				if err == nil {
					c.Fail("Go "+key, "GenerateGoParserFromABNF succeeds on a refused text\n%s", text)
				} else {
					k.blame(c, "Go "+key, "", err)
				}
			}
		}
		c.Sample("%q", text)
	}
	// calls
	p := gen.RandomProfile(c.Rng)
	p.Undef, p.BadRep, p.BadNum, p.Core = c.Rng.IntN(3) == 0, c.Rng.IntN(4) == 0, c.Rng.IntN(4) == 0, true
	g := gen.Random(c.Rng, p)
	w := build(c, g, g.Rules[0].Name)
	if w == nil {
		return
	}
	k := newCulprits()
	k.grammar(w.R)
	rules := []string{"absent", "x-" + w.Root, spellAny(c, "No-Such-Rule"), spellAny(c, w.Root)}
	for _, r := range w.R.Rules {
		rules = append(rules, r.Name)
	}
	in := []byte("ab1")
	for _, rule := range rules {
		max := 1 + c.Rng.IntN(12)
		f := c.Rng.IntN(8)
		calls := []struct {
			name string
			run  func() error
		}{
			{"IsValid", func() error { _, e := w.L.IsValid(rule, in); return e }},
			{"ParseForest", func() error { _, e := goabnf.ParseForest(in, w.L, rule, goabnf.WithMaxForestNodes(max)); return e }},
			{"ParseBSR", func() error { _, e := goabnf.ParseBSR(in, w.L, rule, goabnf.WithMaxForestNodes(max)); return e }},
			{"ParseForest-slots", func() error { _, e := goabnf.ParseForest(in, w.L, rule, goabnf.WithMaxSlots(max)); return e }},
			{"ParseBSR-slots", func() error { _, e := goabnf.ParseBSR(in, w.L, rule, goabnf.WithMaxSlots(max)); return e }},
			{"Parse", func() error { _, e := goabnf.Parse(in, w.L, rule); return e }},
			{"RuleContainsCycle", func() error { _, e := w.L.RuleContainsCycle(rule); return e }},
			{"Regex", func() error { _, e := w.L.Regex(rule, goabnf.WithMaxRegexLen(max)); return e }},
			{"Generate", func() error { _, e := w.L.Generate(1, rule, goabnf.WithThreshold(50)); return e }},
			{"NewASTGenerator", func() error { _, e := goabnf.NewASTGenerator(w.L, rule); return e }},
			{"GenerateGoParser", func() error { _, e := goabnf.GenerateGoParser(w.L, rule, "p"); return e }},
			{"TransitionGraph", func() error {
				_, e := w.L.TransitionGraph(rule, goabnf.WithMaxNodes(max), goabnf.WithDeflateRules(f&1 != 0), goabnf.WithDeflateCharVals(f&2 != 0), goabnf.WithDeflateNumVals(f&4 != 0))
				return e
			}},
			{"Semval", func() error { return goabnf.SemvalABNF(w.L) }},
		}
		for _, call := range calls {
			key := fmt.Sprintf("%s(%q) max %d flags %d of %s", call.name, rule, max, f, w.Text)
			var err error
			if !c.Safe(key, func() { err = call.run() }) {
				continue
			}
			c.Eval(err != nil, call.name, rule, fmt.Sprint(max, f), w.Text)
			if err == nil {
				continue
			}
			var (
				ft *goabnf.ErrForestTooLarge
				gt *goabnf.ErrGrammarTooLarge
				rt *goabnf.ErrRegexTooLarge
				nt *goabnf.ErrMaxNodesExceeded
				is = -1
			)
			switch {
			case errors.As(err, &ft):
				is = ft.Max
			case errors.As(err, &gt):
				is = gt.Max
			case errors.As(err, &rt):
				is = rt.Max
			case errors.As(err, &nt):
				is = nt.Max
			default:
				k.blame(c, key, rule, err)
				continue
			}
			c.Inc("blamed_budget")
			if is != max || !strings.Contains(err.Error(), strconv.Itoa(max)) {
				c.Fail(key, "%s: error %T %q gives %d as the budget", key, err, err, is)
			}
		}
	}
}

func init() {
	register(&Prop{ID: "C27", Count: tiers(2400, 40000), Run: c27, Rule: "faulty texts under the four option settings and calls on random grammars with absent, cyclic and undefined names and tight budgets; non-trivial: the call returned an error"})
}

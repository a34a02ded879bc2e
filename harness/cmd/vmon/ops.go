package main

import (
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"sort"
	"strings"

	goabnf "github.com/pandatix/go-abnf"

	"verif/ref"
)

// op is one exported operation, reduced to a comparable description of its
// answer. Budgets the documentation asks for on untrusted grammars are set.
type op struct {
	name  string
	rule  bool // takes a rule name
	graph bool // builds a transition graph
	run   func(x opArgs) string
}

type opArgs struct {
	g     *goabnf.Grammar
	rule  string
	in    []byte
	tape  []byte
	seed  int64
	fold  func(string) string // names rule spellings alike, when comparing across them
	loose bool                // leave out representation sizes and sources
}

// n normalises text that may spell rule names.
func (x opArgs) n(s string) string {
	if x.fold == nil {
		return s
	}
	return x.fold(s)
}

func (x opArgs) size(n int) int {
	if x.loose {
		return 0
	}
	return n
}

func (x opArgs) hash(s string) string { return hash(x.n(s)) }

func errDesc(err error) string {
	if err == nil {
		return "ok"
	}
	return fmt.Sprintf("error %T", err)
}

func treeDesc(t *goabnf.ParseTree, sb *strings.Builder, n *int) {
	if t == nil {
		sb.WriteString("nil")
		return
	}
	if *n++; *n > 20000 {
		return
	}
	fmt.Fprintf(sb, "%s[%d,%d](", t.Rule, t.Start, t.End)
	for _, c := range t.Children {
		treeDesc(c, sb, n)
	}
	sb.WriteString(")")
}

func hash(s string) string {
	if len(s) < 200 {
		return s
	}
	h := fnv.New64a()
	h.Write([]byte(s))
	return fmt.Sprintf("%s...#%d/%x", s[:80], len(s), h.Sum64())
}

const opForest = 60000

func forestDesc(x opArgs, f *goabnf.Forest, err error) string {
	if err != nil {
		return errDesc(err)
	}
	var sb strings.Builder
	n := 0
	t := f.Tree()
	if f.Ambiguous() { // any one derivation will do
		sb.WriteString(fmt.Sprint(t != nil && t.Start == 0 && t.End == len(x.in)))
	} else {
		treeDesc(t, &sb, &n)
	}
	pe := "none"
	if e := f.ParseError(); e != nil {
		pe = x.n(e.Error())
	}
	return fmt.Sprintf("valid=%v trees=%v ambiguous=%v nodes=%d err=%s tree=%s", f.Valid(), f.NumTrees(), f.Ambiguous(), x.size(f.Nodes()), pe, x.hash(sb.String()))
}

func tgDesc(x opArgs, rules, nums, chars bool) (*goabnf.TransitionGraph, string) {
	tg, err := x.g.TransitionGraph(x.rule, goabnf.WithDeflateRules(rules), goabnf.WithDeflateNumVals(nums), goabnf.WithDeflateCharVals(chars), goabnf.WithMaxNodes(150))
	if err != nil {
		// which of several faults is reported first is not specified
		if isNotFound(err) {
			return nil, errDesc(err)
		}
		return nil, "refused"
	}
	seen := map[*goabnf.Node]bool{}
	var st []*goabnf.Node
	var parts []string
	role := func(ns []*goabnf.Node, what string) {
		for _, n := range ns {
			if n == nil {
				parts = append(parts, what+" empty")
				continue
			}
			parts = append(parts, what+" "+n.Elem.String())
			if what == "entry" {
				st = append(st, n)
			}
		}
	}
	role(tg.Entrypoints, "entry")
	role(tg.Endpoints, "end")
	for len(st) > 0 {
		n := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[n] {
			continue
		}
		seen[n] = true
		parts = append(parts, "node "+n.Elem.String())
		for _, y := range n.Nexts {
			parts = append(parts, "edge "+n.Elem.String()+" -> "+y.Elem.String())
			st = append(st, y)
		}
	}
	for i := range parts {
		parts[i] = x.n(parts[i])
	}
	sort.Strings(parts)
	return tg, x.hash(strings.Join(parts, "\n"))
}

func sortedLines(s string) string {
	ls := strings.Split(s, "\n")
	sort.Strings(ls)
	return strings.Join(ls, "\n")
}

var ops = []op{
	{"IsValid", true, false, func(x opArgs) string {
		v, err := x.g.IsValid(x.rule, x.in)
		return fmt.Sprint(v, " ", errDesc(err))
	}},
	{"ParseForest", true, false, func(x opArgs) string {
		f, err := goabnf.ParseForest(x.in, x.g, x.rule, goabnf.WithMaxForestNodes(opForest))
		return forestDesc(x, f, err)
	}},
	{"ParseBSR", true, false, func(x opArgs) string {
		f, err := goabnf.ParseBSR(x.in, x.g, x.rule, goabnf.WithMaxForestNodes(opForest))
		if err != nil {
			return errDesc(err)
		}
		var sb strings.Builder
		n := 0
		t := f.Tree()
		if f.Ambiguous() { // any one derivation will do
			sb.WriteString(fmt.Sprint(t != nil && t.Start == 0 && t.End == len(x.in)))
		} else {
			treeDesc(t, &sb, &n)
		}
		return fmt.Sprintf("valid=%v trees=%v ambiguous=%v nodes=%d tree=%s", f.Valid(), f.NumTrees(), f.Ambiguous(), x.size(f.Nodes()), x.hash(sb.String()))
	}},
	{"Regex", true, false, func(x opArgs) string {
		re, err := x.g.Regex(x.rule, goabnf.WithMaxRegexLen(1<<14))
		return x.hash(re) + " " + errDesc(err)
	}},
	{"Generate", true, false, func(x opArgs) string {
		b, err := x.g.Generate(x.seed, x.rule, goabnf.WithRepMax(4), goabnf.WithThreshold(64))
		return x.hash(fmt.Sprintf("%q", b)) + " " + errDesc(err)
	}},
	{"ASTGenerator", true, false, func(x opArgs) string {
		ag, err := goabnf.NewASTGenerator(x.g, x.rule, goabnf.WithMaxLen(64), goabnf.WithMaxRepeat(4))
		if err != nil {
			return errDesc(err)
		}
		return x.hash(fmt.Sprintf("%q %q", ag.Generate(x.tape), ag.GenerateRand(rand.New(rand.NewSource(x.seed)))))
	}},
	{"TransitionGraph", true, true, func(x opArgs) string {
		_, d := tgDesc(x, false, false, false)
		return d
	}},
	{"TransitionGraph-deflated", true, true, func(x opArgs) string {
		_, d := tgDesc(x, true, x.seed%2 == 0, x.seed%3 == 0)
		return d
	}},
	{"ToMermaid", true, true, func(x opArgs) string {
		tg, d := tgDesc(x, x.seed%2 == 0, false, false)
		if tg == nil {
			return d
		}
		m := tg.ToMermaid()
		return fmt.Sprint(strings.Count(m, "-->"), " ", strings.Count(m, "\n"), " ", strings.Count(m, ":::"))
	}},
	{"Reader", true, true, func(x opArgs) string {
		tg, d := tgDesc(x, true, false, x.seed%3 == 0)
		if tg == nil {
			return d
		}
		if v, err := viewTG(tg); err != nil || !v.narrow() {
			return "not read"
		}
		var out []string
		rd := tg.Reader(goabnf.WithCoverageMode(goabnf.CoverageCompact))
		for i := 0; i < 300 && rd.Next(); i++ {
			out = append(out, fmt.Sprintf("%q", rd.Scan()))
		}
		sort.Strings(out)
		return x.hash(strings.Join(out, " "))
	}},
	{"Generator", true, true, func(x opArgs) string {
		tg, d := tgDesc(x, true, false, false)
		if tg == nil {
			return d
		}
		ge, err := goabnf.NewGenerator(tg, goabnf.WithMaxLength(60), goabnf.WithMaxReps(4))
		if err != nil {
			return errDesc(err)
		}
		nm, lab, ok := ge.NearMiss(x.tape)
		nx, acc, ok2 := ge.ExpectedNext(x.in)
		return x.hash(fmt.Sprintf("%q %q %q %q %v %q %v %v", ge.Generate(x.tape), ge.GenerateRand(rand.New(rand.NewSource(x.seed))), nm, lab, ok, nx, acc, ok2))
	}},
	{"RuleContainsCycle", true, false, func(x opArgs) string {
		v, err := x.g.RuleContainsCycle(x.rule)
		return fmt.Sprint(v, " ", errDesc(err))
	}},
	{"GenerateGoParser", true, false, func(x opArgs) string {
		src, err := goabnf.GenerateGoParser(x.g, x.rule, "p")
		if x.loose {
			src = nil
		}
		return x.hash(string(src)) + " " + errDesc(err)
	}},
	{"GetRule", true, false, func(x opArgs) string {
		r := goabnf.GetRule(x.rule, x.g.Rulemap)
		if r == nil {
			return "no rule"
		}
		return x.hash(r.String())
	}},
	{"IsDAG", false, false, func(x opArgs) string { return fmt.Sprint(x.g.IsDAG()) }},
	{"DependencyGraph", false, false, func(x opArgs) string {
		dg := x.g.DependencyGraph()
		var out []string
		for k, n := range dg {
			ds := append([]string{}, n.Dependencies...)
			sort.Strings(ds)
			out = append(out, x.n(k+":"+n.Rulename+":"+strings.Join(ds, ",")))
		}
		sort.Strings(out)
		return x.hash(strings.Join(out, " ") + sortedLines(x.n(dg.Mermaid())))
	}},
	{"SemvalABNF", false, false, func(x opArgs) string {
		// which of several faults is reported first is not specified
		return fmt.Sprint(goabnf.SemvalABNF(x.g) == nil)
	}},
	{"Print", false, false, func(x opArgs) string {
		return x.hash(sortedLines(x.n(x.g.String()))) + x.hash(sortedLines(x.n(x.g.PrettyPrint())))
	}},
}

// notFound tells whether the description is that of ErrRuleNotFound.
func isNotFound(err error) bool {
	var nf *goabnf.ErrRuleNotFound
	return errors.As(err, &nf)
}

// longWords tells whether producing a word of the rule may by itself take
// long, because of large minimum repetitions.
func longWords(g *ref.Grammar, rule string) bool {
	if g.AnyRep(rule, func(r *ref.Rep) bool { return r.Min > 1000 && r.Min < 1<<30 }) {
		return true
	}
	n := ref.Analyse(g, rule).Rule(rule)
	return n > 20000 && n < ref.CostInf
}

// producing operations write out words of the rule.
func (o op) producing() bool { return o.name == "Generate" || o.name == "ASTGenerator" }

package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	goabnf "github.com/pandatix/go-abnf"

	"verif/gen"
	"verif/ref"
)

// --------------------------------------------------------------- C25 drawings

type drawing struct {
	nodes map[string]string // id -> label
	shape map[string]bool   // id -> drawn as an endpoint
	entry map[string]bool   // id -> drawn as an entrypoint
	edges map[[2]string]int
	empty int
}

var (
	reNode  = regexp.MustCompile(`^([^\s\[("]+)(?:\(\(\("(.*)"\)\)\)|\["(.*)"\])(:::entrypoint)?$`)
	reEmpty = regexp.MustCompile(`^[^\s\[("]+\(\(\("?∅"?\)\)\)(:::entrypoint)?$`)
	reEdge  = regexp.MustCompile(`^(\S+) --> (\S+)$`)
)

// readFlowchart reads back the flowchart of a transition graph.
func readFlowchart(s string) (*drawing, error) {
	d := &drawing{nodes: map[string]string{}, shape: map[string]bool{}, entry: map[string]bool{}, edges: map[[2]string]int{}}
	for i, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		switch {
		case l == "" || strings.HasPrefix(l, "classDef ") || strings.HasPrefix(l, "%%"):
		case strings.HasPrefix(l, "flowchart "):
			if i != 0 {
				return nil, fmt.Errorf("line %d starts another flowchart", i+1)
			}
		case reEmpty.MatchString(l):
			d.empty++
			if !strings.HasSuffix(l, ":::entrypoint") {
				return nil, fmt.Errorf("empty node not drawn as an entrypoint")
			}
		case reEdge.MatchString(l):
			m := reEdge.FindStringSubmatch(l)
			d.edges[[2]string{m[1], m[2]}]++
		case reNode.MatchString(l):
			m := reNode.FindStringSubmatch(l)
			if _, dup := d.nodes[m[1]]; dup {
				return nil, fmt.Errorf("node %s drawn twice", m[1])
			}
			d.shape[m[1]] = strings.Contains(l, `((("`) && strings.HasPrefix(l[len(m[1]):], "(((")
			d.nodes[m[1]] = m[2] + m[3]
			d.entry[m[1]] = m[4] != ""
		default:
			return nil, fmt.Errorf("line %d is no node, edge or style: %q", i+1, l)
		}
	}
	return d, nil
}

// label is what names an element in a drawing, blanks aside.
func label(e *ref.Elem) string {
	switch e.Kind {
	case ref.KRule:
		return e.Name
	case ref.KStr:
		s := ""
		for _, r := range e.Str {
			switch {
			case r == '`':
				s += "backquote"
			case r == '"':
				s += "dquote"
			case r > 32 && r < 127:
				s += string(r)
			}
		}
		return s
	case ref.KNum:
		sep := "."
		if e.Range {
			sep = "-"
		}
		return "0" + string(e.Base) + strings.Join(e.Vals, sep)
	}
	return e.String()
}

func noBlanks(s string) string {
	return strings.Map(func(r rune) rune {
		if r == ' ' || r == '\t' || r == 0x7f {
			return -1
		}
		return r
	}, s)
}

// sameDrawing compares a drawing with the graph it shows.
func sameDrawing(v *tgView, d *drawing) string {
	if len(d.nodes) != len(v.nodes) {
		return fmt.Sprintf("%d nodes drawn, %d in the graph", len(d.nodes), len(v.nodes))
	}
	entries := map[*goabnf.Node]bool{}
	for _, e := range v.entries {
		entries[e] = true
	}
	edges := map[[2]string]int{}
	for _, n := range v.nodes {
		l, ok := d.nodes[n.ID]
		if !ok {
			return fmt.Sprintf("node %s (%s) is not drawn", n.ID, v.elems[n])
		}
		if w := label(v.elems[n]); !strings.EqualFold(noBlanks(l), noBlanks(w)) || v.elems[n].Kind == ref.KStr && noBlanks(l) != noBlanks(w) {
			return fmt.Sprintf("node %s stands for %s but is labelled %q", n.ID, v.elems[n], l)
		}
		if d.shape[n.ID] != v.ends[n] {
			return fmt.Sprintf("node %s (%s): drawn as an endpoint %v, is one %v", n.ID, v.elems[n], d.shape[n.ID], v.ends[n])
		}
		if d.entry[n.ID] != entries[n] {
			return fmt.Sprintf("node %s (%s): drawn as an entrypoint %v, is one %v", n.ID, v.elems[n], d.entry[n.ID], entries[n])
		}
		for _, x := range n.Nexts {
			edges[[2]string{n.ID, x.ID}]++
		}
	}
	for e, k := range edges {
		if d.edges[e] != k {
			return fmt.Sprintf("edge %v drawn %d times, %d in the graph", e, d.edges[e], k)
		}
	}
	for e, k := range d.edges {
		if edges[e] != k {
			return fmt.Sprintf("edge %v drawn %d times, %d in the graph", e, k, edges[e])
		}
	}
	want := 0
	if v.empty {
		want = 1
	}
	if d.empty != want {
		return fmt.Sprintf("empty node drawn %d times, empty entrypoint %v", d.empty, v.empty)
	}
	return ""
}

// shapeOf is a drawing without its arbitrary identifiers.
func shapeOf(d *drawing) string {
	var out []string
	for id, l := range d.nodes {
		deg := 0
		for e, k := range d.edges {
			if e[0] == id {
				deg += k
			}
		}
		out = append(out, fmt.Sprintf("node %q end %v entry %v out %d", l, d.shape[id], d.entry[id], deg))
	}
	for e, k := range d.edges {
		out = append(out, fmt.Sprintf("edge %q/%v -> %q/%v x%d", d.nodes[e[0]], d.shape[e[0]], d.nodes[e[1]], d.shape[e[1]], k))
	}
	sort.Strings(out)
	return fmt.Sprint(strings.Join(out, "\n"), "\nempty ", d.empty)
}

func c25deps(c *Case, w *Work) {
	m := w.L.DependencyGraph().Mermaid()
	got := map[[2]string]int{}
	spelled := map[string]string{}
	for i, l := range strings.Split(m, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || i == 0 && strings.HasPrefix(l, "flowchart ") {
			continue
		}
		x := reEdge.FindStringSubmatch(l)
		if x == nil {
			// a rule alone
			if w.R.Find(l) == nil {
				c.Fail("deps line "+w.Key(l), "Mermaid line %q is no edge and no rule\n%s", l, w.Text)
			}
			continue
		}
		for _, n := range x[1:] {
			if p, ok := spelled[ref.Lower(n)]; ok && p != n {
				c.Fail("deps spelling "+w.Key(n), "rule %s is drawn twice, as %s and as %s\n%s\n%s", n, p, n, m, w.Text)
			}
			spelled[ref.Lower(n)] = n
		}
		got[[2]string{ref.Lower(x[1]), ref.Lower(x[2])}]++
	}
	need, may := map[[2]string]bool{}, map[[2]string]bool{}
	reach := map[string]bool{}
	for _, r := range w.R.Rules {
		reach[ref.Lower(r.Name)] = true
		for k := range w.R.Reach(r.Name) {
			reach[ref.Lower(k)] = true
		}
	}
	all := append([]*ref.Rule{}, w.R.Rules...)
	for _, n := range ref.CoreNames {
		if w.R.FindUser(n) == nil {
			all = append(all, ref.CoreRule(n))
		}
	}
	for _, r := range all {
		for d := range ref.Deps(r) {
			e := [2]string{ref.Lower(r.Name), ref.Lower(d)}
			may[e] = true
			need[e] = reach[ref.Lower(r.Name)]
		}
	}
	c.Eval(len(need) > 0, "deps", w.Text)
	c.Add("dependency edges", len(got))
	for e, n := range need {
		if n && got[e] == 0 {
			c.Fail("deps missing "+w.Key(e[0]+" "+e[1]), "the dependency of %s on %s is not drawn\n%s\n%s", e[0], e[1], m, w.Text)
		}
	}
	for e, k := range got {
		if !may[e] || k > 1 {
			c.Fail("deps extra "+w.Key(e[0]+" "+e[1]), "%s --> %s drawn %d times, a dependency %v\n%s\n%s", e[0], e[1], k, may[e], m, w.Text)
		}
	}
}

func c25(c *Case) {
	cc := *c
	var ws []*Work
	var kind string
	if c.Idx == 3 { // every printable character, alone and inside a string
		for b := 0x20; b < 0x7F; b++ {
			if b == '"' {
				continue
			}
			if w := viaText(fmt.Sprintf("s = %%s\"%c\" / \"x%cY\" %%x%X-7E [%%d%d.%d]\r\n", b, b, b, b, b), "s"); w != nil {
				ws = append(ws, w)
			}
		}
		kind = "characters"
	} else if c.Idx%4 == 3 {
		p := gen.RandomProfile(c.Rng)
		p.Core, p.DAG = true, c.Rng.IntN(2) == 0
		r := gen.Random(c.Rng, p)
		if w := build(c, r, r.Rules[0].Name); w != nil {
			ws = append(ws, w)
		}
		kind = "core-heavy"
	} else {
		cc.Idx = c.Idx * 3 / 4
		ws, kind = engineWork(&cc, false)
	}
	for _, w := range ws {
		c.Inc("grammars " + kind)
		c.Safe("DependencyGraph "+w.Text, func() { c25deps(c, w) })
		for k := 0; k < 8; k++ {
			c.Safe(fmt.Sprintf("ToMermaid %d %s", k, w.Text), func() {
				tg, err := w.L.TransitionGraph(w.Root, goabnf.WithMaxNodes(150), goabnf.WithDeflateRules(k&1 != 0), goabnf.WithDeflateCharVals(k&2 != 0), goabnf.WithDeflateNumVals(k&4 != 0))
				if err != nil {
					c.Inc("graphs refused")
					return
				}
				v, err := viewTG(tg)
				if err != nil {
					c.Inc("graphs not read")
					return
				}
				m := tg.ToMermaid()
				c.Eval(len(v.nodes) > 0, fmt.Sprint(k), w.Text, w.Root)
				c.Inc("drawings")
				c.Add("nodes drawn", len(v.nodes))
				d, err := readFlowchart(m)
				bad := ""
				if err != nil {
					bad = err.Error()
				} else {
					bad = sameDrawing(v, d)
				}
				if bad != "" {
					c.Fail(fmt.Sprintf("draw %d ", k)+w.Key(w.Root), "ToMermaid of %q, flags %d: %s\n%s\n%s", w.Root, k, bad, m, w.Text)
				}
				if k == c.Idx%8 {
					c.Sample("%s\n%s", w.Text, m)
				}
			})
		}
	}
}

func init() {
	register(&Prop{ID: "C25", Count: tiers(6000, 80000), Run: c25,
		Rule: "flowcharts of transition graphs under every deflation and of dependency graphs, read back and compared with the graph they show; non-trivial: graphs with nodes"})
}

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"

	goabnf "github.com/pandatix/go-abnf"

	"verif/bridge"
	"verif/gen"
	"verif/ref"
)

// Work is one grammar under both representations.
type Work struct {
	R    *ref.Grammar
	L    *goabnf.Grammar
	Root string
	Text string   // ABNF text (canonical or noisy)
	Via  string   // "ast" or "text"
	Ins  [][]byte // inputs that go with it, if any
}

// Inputs are the inputs to run on a grammar.
func (w *Work) Inputs(c *Case, n, maxLen int) [][]byte {
	if w.Ins != nil {
		return w.Ins
	}
	return gen.Inputs(c.Rng, w.R, w.Root, n, maxLen)
}

// longWork is a light grammar with long inputs, past the sizes that fit a byte.
func longWork(c *Case, n int) *Work {
	l := &gen.LongShapes[c.Rng.IntN(len(gen.LongShapes))]
	w := directed(c, l.Text)
	if w != nil {
		w.Ins = l.Long(c.Rng, n)
	}
	return w
}

// countedWork counts tens or hundreds of occurrences, with inputs around the bounds.
func countedWork(c *Case, lim int) *Work {
	text, ins := gen.Counted(c.Rng, lim)
	w := directed(c, text)
	if w != nil {
		w.Ins = ins
		c.Inc("counted runs")
	}
	return w
}

func (w *Work) Key(in string) string { return fmt.Sprintf("%s | %s | %q", w.Text, w.Root, in) }

func crlf(s string) string { return strings.ReplaceAll(s, "|", "\r\n") + "\r\n" }

// viaText parses text with the library, validation off; the reference grammar
// is read back from what the library built, so that engine monitors do not
// depend on the ABNF front end being right.
func viaText(text, root string) *Work {
	l, err := goabnf.ParseABNF([]byte(text), goabnf.WithValidation(false), goabnf.WithRedefineCoreRules(true))
	if err != nil || l == nil {
		return nil
	}
	r, err := bridge.Lift(l)
	if err != nil {
		return nil
	}
	if root == "" {
		root = r.Rules[0].Name
	}
	return &Work{R: r, L: l, Root: root, Text: text, Via: "text"}
}

func viaAST(r *ref.Grammar, root string) *Work {
	l, ok := bridge.Lower(r)
	if !ok {
		return nil
	}
	return &Work{R: r, L: l, Root: root, Text: r.Text(), Via: "ast"}
}

var beyondOdds = 40

func init() {
	if n, _ := strconv.Atoi(os.Getenv("VMON_BEYOND")); n > 0 {
		beyondOdds = n
	}
}

// both alternates construction routes; prose needs text.
func build(c *Case, r *ref.Grammar, root string) *Work {
	if c.Rng.IntN(beyondOdds) == 0 && gen.Beyond(c.Rng, r) {
		c.Inc("strings beyond ABNF")
		return viaAST(r, root) // nil with prose
	}
	if c.Rng.IntN(3) != 0 {
		if w := viaAST(r, root); w != nil {
			return w
		}
	}
	n := &ref.Noise{Rng: c.Rng, Level: 0}
	w := viaText(n.Defs(n.Split(r)), root)
	if w == nil {
		c.Inc("skipped_text_refused")
	}
	return w
}

func directed(c *Case, text string) *Work {
	r := ref.MustGrammar(crlf(text))
	root := r.Rules[0].Name
	if c.Idx%2 == 0 {
		if w := viaAST(r, root); w != nil {
			return w
		}
	}
	w := viaText(crlf(text), root)
	if w == nil {
		c.Inc("skipped_text_refused")
	}
	return w
}

// ------------------------------------------------------- real grammars

type realGrammar struct {
	Name string
	Text []byte
	Ref  *ref.Grammar
}

var (
	realOnce sync.Once
	reals    []realGrammar
)

// Reals loads the .abnf files shipped with the repository that the reference
// parser accepts.
func Reals() []realGrammar {
	realOnce.Do(func() {
		var fs []string
		filepath.WalkDir("/repo", func(p string, d os.DirEntry, err error) error {
			if err == nil && !d.IsDir() && strings.HasSuffix(p, ".abnf") {
				fs = append(fs, p)
			}
			return nil
		})
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			defs, err := ref.ParseText(b)
			if err != nil {
				continue
			}
			g, e := ref.Build(defs, true)
			if e != nil {
				continue
			}
			reals = append(reals, realGrammar{filepath.Base(f), b, g})
		}
	})
	return reals
}

// engineWork yields the workload of a case for the engine properties:
// directed grammars first, then real ones, then random ones.
func nEngineDirected() int { return len(gen.Directed) + len(gen.DirectedBad) }

func engineWork(c *Case, bad bool) (ws []*Work, kind string) {
	nd := len(gen.Directed)
	nb := 0
	if bad {
		nb = len(gen.DirectedBad)
	}
	i := c.Idx
	add := func(w *Work) {
		if w != nil {
			ws = append(ws, w)
		}
	}
	switch {
	case i < nd:
		add(directed(c, gen.Directed[i]))
		return ws, "directed"
	case i < nd+nb:
		add(directed(c, gen.DirectedBad[i-nd]))
		return ws, "directed-bad"
	}
	if c.Idx%211 == 7 {
		add(longWork(c, 240+c.Rng.IntN(140)))
		c.Inc("long inputs")
		return ws, "long"
	}
	if c.Idx%71 == 11 {
		lim := 300
		if c.Prop == "C01" {
			lim = 700
		}
		add(countedWork(c, lim))
		return ws, "counted"
	}
	for k := 0; k < 4; k++ {
		p := gen.RandomProfile(c.Rng)
		if bad && c.Rng.IntN(4) == 0 {
			p.Prose = c.Rng.IntN(2) == 0
			p.Undef = c.Rng.IntN(2) == 0
			p.BadRep = c.Rng.IntN(2) == 0
			p.BadNum = c.Rng.IntN(2) == 0
		}
		r := gen.Random(c.Rng, p)
		if k == 0 && c.Idx%67 == 5 {
			r = gen.Scale(c.Rng, false)
			c.Inc("large grammars")
		}
		root := r.Rules[c.Rng.IntN(len(r.Rules))].Name
		if c.Rng.IntN(2) == 0 {
			root = r.Rules[0].Name
		}
		add(build(c, r, root))
	}
	return ws, "random"
}

func q(b []byte) string { return fmt.Sprintf("%q", b) }

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	goabnf "github.com/pandatix/go-abnf"

	"verif/gen"
	"verif/ref"
)

// C05: generated parsers are written to a scratch module, compiled with the
// real toolchain, and run in their own process by a driver that records what
// every query answers; the record is then checked offline.

type cgAsk struct {
	Pkg    int      `json:"pkg"`
	Max    int      `json:"max"` // -1: leave the default
	Inputs [][]byte `json:"inputs"`
}

type cgTree struct {
	R    string    `json:"r,omitempty"`
	S    int       `json:"s"`
	E    int       `json:"e"`
	Kids []*cgTree `json:"k,omitempty"`
}

type cgAns struct {
	Err   string  `json:"err,omitempty"`
	Large bool    `json:"large,omitempty"`
	Panic string  `json:"panic,omitempty"`
	Valid bool    `json:"valid"`
	Num   string  `json:"num"`
	Amb   bool    `json:"amb"`
	Elems int     `json:"elems"`
	Tree  *cgTree `json:"tree,omitempty"`
	Tree2 *cgTree `json:"tree2,omitempty"`
}

func (t *cgTree) ref() *ref.Tree {
	if t == nil {
		return nil
	}
	r := &ref.Tree{Rule: t.R, Start: t.S, End: t.E}
	for _, k := range t.Kids {
		r.Kids = append(r.Kids, k.ref())
	}
	return r
}

func cgDriver(n int) string {
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"encoding/json\"\n\t\"fmt\"\n\t\"os\"\n")
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "\tp%d \"verifgen/p%d\"\n", i, i)
	}
	b.WriteString(")\n")
	b.WriteString(`
type ask struct {
	Pkg    int      ` + "`json:\"pkg\"`" + `
	Max    int      ` + "`json:\"max\"`" + `
	Inputs [][]byte ` + "`json:\"inputs\"`" + `
}

type tree struct {
	R    string  ` + "`json:\"r,omitempty\"`" + `
	S    int     ` + "`json:\"s\"`" + `
	E    int     ` + "`json:\"e\"`" + `
	Kids []*tree ` + "`json:\"k,omitempty\"`" + `
}

type ans struct {
	Err   string ` + "`json:\"err,omitempty\"`" + `
	Large bool   ` + "`json:\"large,omitempty\"`" + `
	Panic string ` + "`json:\"panic,omitempty\"`" + `
	Valid bool   ` + "`json:\"valid\"`" + `
	Num   string ` + "`json:\"num\"`" + `
	Amb   bool   ` + "`json:\"amb\"`" + `
	Elems int    ` + "`json:\"elems\"`" + `
	Tree  *tree  ` + "`json:\"tree,omitempty\"`" + `
	Tree2 *tree  ` + "`json:\"tree2,omitempty\"`" + `
}

func one(pkg, max int, in []byte) (a ans) {
	defer func() {
		if r := recover(); r != nil {
			a.Panic = fmt.Sprint(r)
		}
	}()
	switch pkg {
`)
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "\tcase %d:\n\t\ta = run%d(max, in)\n", i, i)
	}
	b.WriteString("\t}\n\treturn\n}\n")
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, `
func tree%[1]d(t *p%[1]d.ParseTree) *tree {
	if t == nil {
		return nil
	}
	r := &tree{R: t.Rule, S: t.Start, E: t.End}
	for _, k := range t.Children {
		r.Kids = append(r.Kids, tree%[1]d(k))
	}
	return r
}

func run%[1]d(max int, in []byte) (a ans) {
	old := p%[1]d.MaxElements
	if max >= 0 {
		p%[1]d.MaxElements = max
	}
	defer func() { p%[1]d.MaxElements = old }()
	r, err := p%[1]d.Parse(in)
	if err != nil {
		a.Err = err.Error()
		a.Large = err == p%[1]d.ErrTooLarge
		return
	}
	a.Valid, a.Num, a.Amb, a.Elems = r.Valid(), r.NumTrees().String(), r.Ambiguous(), r.Elements()
	a.Tree = tree%[1]d(r.Tree())
	a.Tree2 = tree%[1]d(r.Tree())
	return
}
`, i)
	}
	b.WriteString(`
func main() {
	dec, enc := json.NewDecoder(os.Stdin), json.NewEncoder(os.Stdout)
	for {
		var q ask
		if err := dec.Decode(&q); err != nil {
			return
		}
		for _, in := range q.Inputs {
			fmt.Fprintf(os.Stderr, "NOTE p%d max=%d %q\n", q.Pkg, q.Max, in)
			enc.Encode(one(q.Pkg, q.Max, in))
		}
	}
}
`)
	return b.String()
}

func runCmd(dir string, sec int, stdin []byte, name string, args ...string) (out, errOut string, rc int) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(sec)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &capWriter{b: &eb, max: 1 << 18}
	if stdin != nil {
		cmd.Stdin = bytes.NewReader(stdin)
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	err := cmd.Run()
	if err != nil {
		rc = 99
		if ee, ok := err.(*exec.ExitError); ok {
			rc = ee.ExitCode()
		}
		if ctx.Err() != nil {
			rc = -9
		}
	}
	return ob.String(), eb.String(), rc
}

func lastNote(s string) string {
	last := ""
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "NOTE ") {
			last = l[5:]
		}
	}
	return last
}

const cgBatch = 16

var emptyBombs = []string{
	`s = 1000000000000""`,
	`s = *1000000000000(["a"])`,
	`s = 3*9999999999(x) ["b"]|x = *"c"`,
	`s = ["a"] 0*4000000000(["b"] *2000000000[x])|x = ["z"]`,
}

func c05(c *Case) {
	var ws []*Work
	add := func(w *Work) {
		if w == nil || nullableBounded(w.R, w.Root, 40) {
			return
		}
		ws = append(ws, w)
	}
	nd := len(gen.Directed) + len(gen.DirectedBad)
	for k := 0; k < cgBatch; k++ {
		i := c.Idx*cgBatch + k
		switch {
		case i < len(gen.Directed):
			add(directed(c, gen.Directed[i]))
		case i < nd:
			add(directed(c, gen.DirectedBad[i-len(gen.Directed)]))
		default:
			p := gen.RandomProfile(c.Rng)
			if c.Rng.IntN(3) == 0 {
				p.Prose = c.Rng.IntN(2) == 0
				p.Undef = c.Rng.IntN(2) == 0
				p.BadRep = c.Rng.IntN(2) == 0
				p.BadNum = c.Rng.IntN(2) == 0
			}
			r := gen.Random(c.Rng, p)
			add(build(c, r, r.Rules[c.Rng.IntN(len(r.Rules))].Name))
		}
	}
	add(countedWork(c, 150))
	// one parser whose elements are repeated emptily a huge number of times:
	// only its bound keeps it from running away
	bombW := viaText(crlf(emptyBombs[c.Idx%len(emptyBombs)]), "s")
	if bombW == nil {
		c.Fail("bomb", "ParseABNF refuses %s", emptyBombs[c.Idx%len(emptyBombs)])
		return
	}
	ws = append(ws, bombW)
	dir, err := os.MkdirTemp(c.Scratch, "cg")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module verifgen\n\ngo 1.23\n"), 0o644)
	var kept []*Work
	for _, w := range ws {
		var src []byte
		var err error
		root := spellings(c, w.Root)
		ok := c.Safe("GenerateGoParser "+w.Key(""), func() {
			if w.Via == "text" && c.Rng.IntN(2) == 0 {
				src, err = goabnf.GenerateGoParserFromABNF([]byte(w.Text), root, fmt.Sprintf("p%d", len(kept)), goabnf.WithValidation(false), goabnf.WithRedefineCoreRules(true))
			} else {
				src, err = goabnf.GenerateGoParser(w.L, root, fmt.Sprintf("p%d", len(kept)))
			}
		})
		if !ok {
			continue
		}
		if err != nil {
			c.Fail("GenerateGoParser-err "+w.Key(""), "GenerateGoParser(%q) failed: %v\n%s", root, err, w.Text)
			continue
		}
		pd := filepath.Join(dir, fmt.Sprintf("p%d", len(kept)))
		os.MkdirAll(pd, 0o755)
		os.WriteFile(filepath.Join(pd, "p.go"), src, 0o644)
		kept = append(kept, w)
	}
	if len(kept) == 0 {
		return
	}
	os.MkdirAll(filepath.Join(dir, "main"), 0o755)
	os.WriteFile(filepath.Join(dir, "main", "main.go"), []byte(cgDriver(len(kept))), 0o644)
	bin := filepath.Join(dir, "drv")
	_, se, rc := runCmd(dir, 100, nil, "go", "build", "-p", "1", "-gcflags=verifgen/...=-N -l", "-ldflags=-s -w", "-o", bin, "./main")
	c.Eval(true, "build", fmt.Sprint(c.Idx))
	c.Add("parsers_compiled", len(kept))
	if rc != 0 {
		bad := false
		for i, w := range kept {
			if strings.Contains(se, fmt.Sprintf("verifgen/p%d\n", i)) || strings.Contains(se, fmt.Sprintf("p%d/p.go:", i)) {
				bad = true
				c.Fail("compile "+w.Key(""), "generated parser for root %q does not compile:\n%s\n%s", w.Root, tail(se, 1500), w.Text)
			}
		}
		if !bad {
			// the build itself failed to run: not an observation about the code
			fmt.Fprintln(os.Stderr, "go build:", rc, tail(se, 3000))
			os.Exit(3)
		}
		return
	}
	type job struct {
		w      *Work
		in     []byte
		n      *big.Int
		max    int
		budget int // -1: none expected
	}
	var jobs []job
	ask := func(js []job) ([]cgAns, bool) {
		var sb bytes.Buffer
		e := json.NewEncoder(&sb)
		idx := map[*Work]int{}
		for i, w := range kept {
			idx[w] = i
		}
		for _, j := range js {
			e.Encode(cgAsk{idx[j.w], j.max, [][]byte{j.in}})
		}
		out, se, rc := runCmd(dir, 40, sb.Bytes(), bin)
		if rc != 0 {
			c.Fail("crash "+lastNote(se), "generated parser killed its process (status %d) at %s\n%s", rc, lastNote(se), tail(se, 3000))
			return nil, false
		}
		var as []cgAns
		d := json.NewDecoder(strings.NewReader(out))
		for range js {
			var a cgAns
			if err := d.Decode(&a); err != nil {
				panic(err)
			}
			as = append(as, a)
		}
		return as, true
	}
	nin := 16
	if !c.Quick() {
		nin = 30
	}
	var bj []job
	for _, w := range kept {
		if w == bombW {
			for _, in := range []string{"", "a", "ab", "zz"} {
				bj = append(bj, job{w, []byte(in), nil, 1 + c.Rng.IntN(4000), 1 << 40})
			}
			continue
		}
		for _, in := range w.Inputs(c, nin, 8) {
			n, ok := ref.Count(ref.NewRec(w.R, in), w.Root, 100000)
			if !ok {
				c.Inc("skipped_count_budget")
				continue
			}
			jobs = append(jobs, job{w, in, n, -1, -1})
		}
		c.Sample("%s root %s", w.Text, w.Root)
	}
	as, ok := ask(jobs)
	if !ok {
		return
	}
	check := func(j job, a cgAns) {
		w := j.w
		key := w.Key(string(j.in))
		if a.Panic != "" {
			c.Fail("gen-panic "+key, "generated Parse(%q) panics: %s\n%s", j.in, a.Panic, w.Text)
			return
		}
		if a.Err != "" {
			c.Fail("gen-err "+key, "generated Parse(%q) (MaxElements %d) fails: %s\n%s", j.in, j.max, a.Err, w.Text)
			return
		}
		amb := j.n.Sign() < 0 || j.n.Cmp(big.NewInt(1)) > 0
		if a.Valid != (j.n.Sign() != 0) || a.Num != j.n.String() || a.Amb != amb {
			c.Fail("gen-answer "+key, "generated Parse(%q) root %s (MaxElements %d): Valid %v NumTrees %s Ambiguous %v, exact number of derivations is %v\n%s", j.in, w.Root, j.max, a.Valid, a.Num, a.Amb, j.n, w.Text)
		}
		for _, t := range []*ref.Tree{a.Tree.ref(), a.Tree2.ref()} {
			msg := ""
			switch {
			case j.n.Sign() == 0:
				if t != nil {
					msg = "tree for invalid input"
				}
			case j.n.Sign() < 0:
				msg = ref.CheckNested(j.in, t, true)
			default:
				msg = ref.CheckTree(w.R, w.Root, j.in, t)
			}
			if msg != "" {
				c.Fail("gen-tree "+key, "generated Parse(%q).Tree: %s\n%s\n%s", j.in, msg, ref.TreeString(t), w.Text)
			}
		}
	}
	for i, j := range jobs {
		c.Eval(j.n.Sign() != 0, j.w.Text, j.w.Root, string(j.in))
		check(j, as[i])
		switch {
		case j.n.Sign() == 0:
			c.Inc("rejected")
		case j.n.Sign() < 0:
			c.Inc("infinite")
		default:
			c.Inc("derivable")
		}
		// library agreement
		if f, err := goabnf.ParseBSR(j.in, j.w.L, j.w.Root); err == nil && as[i].Err == "" && as[i].Panic == "" {
			if f.Valid() != as[i].Valid || f.NumTrees().String() != as[i].Num || f.Ambiguous() != as[i].Amb {
				c.Fail("gen-agree "+j.w.Key(string(j.in)), "generated parser and ParseBSR disagree on %q: %v/%s/%v against %v/%s/%v\n%s", j.in, as[i].Valid, as[i].Num, as[i].Amb, f.Valid(), f.NumTrees(), f.Ambiguous(), j.w.Text)
			}
		}
		if E := as[i].Elems; as[i].Err == "" && c.Rng.IntN(3) == 0 {
			for _, m := range []int{E, E - 1, E / 2, 1, 0, E + 1} {
				if m < 0 || m == 0 && E == 0 {
					continue
				}
				bj = append(bj, job{j.w, j.in, j.n, m, E})
			}
		}
	}
	bs, ok := ask(bj)
	if !ok {
		return
	}
	for i, j := range bj {
		a := bs[i]
		c.Inc("budget_checks")
		if j.max == 0 || j.max >= j.budget { // fits
			check(j, a)
			continue
		}
		if !a.Large {
			c.Fail("gen-budget "+j.w.Key(string(j.in)), "generated Parse(%q) with MaxElements %d (needs %d): err %q panic %q, want ErrTooLarge\n%s", j.in, j.max, j.budget, a.Err, a.Panic, j.w.Text)
		}
	}
}

func init() {
	register(&Prop{ID: "C05", Count: tiers(96, 480), Run: c05, CaseSec: 300,
		Rule: "a case generates parsers for 16 grammars, compiles them with the Go toolchain, runs them in their own process on words, mutations and exhaustive short strings, and checks every recorded answer against exact derivation counts, the tree checker, ParseBSR and MaxElements bounds; non-trivial: a derivable input (or a batch build), distinct by (grammar, root, input)",
		Prepare: func(scratch string) error {
			os.Setenv("GOFLAGS", "-mod=mod")
			os.Setenv("GOWORK", "off")
			os.Setenv("GOPROXY", "off")
			os.Setenv("GOTOOLCHAIN", "local")
			os.Setenv("GOCACHE", filepath.Join(scratch, "gocache"))
			os.Unsetenv("GOROOT")
			return nil
		}})
}

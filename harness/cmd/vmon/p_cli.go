package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	goabnf "github.com/pandatix/go-abnf"

	"verif/bridge"
	"verif/gen"
	"verif/ref"
)

// ---------------------------------------------------------------- C24 commands

type outcome struct {
	rc       int
	out, err []byte
	hung     bool
}

func (o outcome) String() string {
	return fmt.Sprintf("exit %d, stdout %q, stderr %q", o.rc, tail(string(o.out), 600), tail(string(o.err), 600))
}

func runTool(tool string, stdin []byte, dir string, args ...string) outcome {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, tool, args...)
	cmd.Dir = dir
	var ob, eb bytes.Buffer
	cmd.Stdin, cmd.Stdout, cmd.Stderr = bytes.NewReader(stdin), &ob, &eb
	err := cmd.Run()
	o := outcome{out: ob.Bytes(), err: eb.Bytes(), hung: ctx.Err() != nil}
	if err != nil {
		o.rc = 99
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			o.rc = ee.ExitCode()
		}
	}
	return o
}

func c24prepare(scratch string) error {
	if !filepath.IsAbs(scratch) {
		return fmt.Errorf("no scratch directory")
	}
	env := []string{}
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "GOFLAGS", "GOWORK", "GOROOT":
		default:
			env = append(env, e)
		}
	}
	env = append(env, "GOFLAGS=", "GOPROXY=off", "GOTOOLCHAIN=local")
	for _, t := range []string{"pap", "abnf-gen"} {
		cmd := exec.Command("go", "build", "-o", filepath.Join(scratch, t), "./cmd/"+t)
		cmd.Dir, cmd.Env = "/repo", env
		if b, err := cmd.CombinedOutput(); err != nil {
			return fmt.Errorf("go build ./cmd/%s: %v\n%s", t, err, b)
		}
	}
	return nil
}

// source passes a grammar to a command, as a file or on standard input.
type source struct {
	how   string
	args  []string
	stdin []byte
}

func sources(c *Case, dir string, text []byte) source {
	switch c.Rng.IntN(4) {
	case 0:
		return source{"stdin by default", nil, text}
	case 1:
		return source{"stdin as -", []string{"--input", "-"}, text}
	case 2:
		// what lies on standard input is not read
		f := filepath.Join(dir, "g.abnf")
		os.WriteFile(f, text, 0o600)
		return source{"file", []string{"--input=" + f}, []byte("zz = \"not this one\"\r\n")}
	}
	f := filepath.Join(dir, "with space é.abnf")
	os.WriteFile(f, text, 0o600)
	return source{"file", []string{"--input", f}, nil}
}

// judge compares an outcome with what the library answers.
func (c *Case) judge(what string, o outcome, want []byte, err error, same func(a, b []byte) bool) {
	c.Eval(true, what)
	c.Inc("runs " + strings.Fields(what)[0] + " " + strings.Fields(what)[1])
	switch {
	case o.hung:
		c.Fail("hang "+what, "%s: no end after 30 s", what)
	case err != nil:
		c.Inc("runs expected to fail")
		if o.rc == 0 || len(o.err) == 0 || len(o.out) != 0 {
			c.Fail(what, "%s: the library answers %T %v, the command %s", what, err, err, o)
		}
	default:
		ok := bytes.Equal(o.out, want)
		if same != nil && !ok {
			ok = same(o.out, want)
		}
		if o.rc != 0 || !ok {
			c.Fail(what, "%s: the library answers %q, the command %s", what, tail(string(want), 600), o)
		}
	}
}

func c24text(c *Case) []byte {
	switch c.Rng.IntN(6) {
	case 0:
		t := texts(c)
		return []byte(t[c.Rng.IntN(len(t))])
	case 1:
		g := textGrammar(c, true)
		if c.Rng.IntN(3) == 0 {
			renameCore(c, g)
		}
		n := &ref.Noise{Rng: c.Rng, Level: c.Rng.IntN(3)}
		return []byte(n.Defs(n.Split(g)))
	}
	p := gen.RandomProfile(c.Rng)
	p.DAG = c.Rng.IntN(2) == 0
	n := &ref.Noise{Rng: c.Rng, Level: c.Rng.IntN(3)}
	return []byte(n.Defs(n.Split(gen.Random(c.Rng, p))))
}

func c24(c *Case) {
	pap, ag := filepath.Join(c.Scratch, "pap"), filepath.Join(c.Scratch, "abnf-gen")
	if _, err := os.Stat(pap); err != nil { // replay of a single shard
		if err := c24prepare(c.Scratch); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	dir, err := os.MkdirTemp(c.Scratch, "cli")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer os.RemoveAll(dir)
	var text []byte
	switch rs := Reals(); {
	case c.Idx < len(gen.Directed)/4:
		text = []byte(crlf(gen.Directed[c.Idx*4]))
	case c.Idx < len(gen.Directed)/4+len(rs) && len(rs[c.Idx-len(gen.Directed)/4].Text) < 4000:
		text = rs[c.Idx-len(gen.Directed)/4].Text
	default:
		text = c24text(c)
	}
	if c.Idx%41 == 33 {
		text = []byte(padded(c, string(text), 4200+c.Rng.IntN(5000)))
		c.Inc("long texts")
	}
	c.Sample("%s", text)
	g, gerr := goabnf.ParseABNF(text)
	rule := "s"
	if defs, err := ref.ParseText(text); err == nil && len(defs) > 0 {
		rule = defs[c.Rng.IntN(len(defs))].Name
	}
	switch c.Rng.IntN(12) {
	case 0:
		rule = "nope"
	case 1:
		rule = respell(c, "hexdig")
	default:
		rule = respell(c, rule)
	}
	run := func(sub string, fl []string, noIn bool) (outcome, string) {
		s := sources(c, dir, text)
		a := append([]string{sub}, s.args...)
		// flags in any order
		if c.Rng.IntN(2) == 0 {
			a = append(append([]string{sub}, fl...), s.args...)
		} else {
			a = append(a, fl...)
		}
		what := fmt.Sprintf("pap %s %q on %s: %q", sub, fl, s.how, text)
		c.Note("%s", what)
		return runTool(pap, s.stdin, dir, a...), what
	}

	// validate
	for _, v := range []struct {
		fl   []string
		opts []goabnf.ABNFOption
	}{
		{nil, nil}, {[]string{"--sem-val"}, nil}, {[]string{"--sem-val=true"}, nil}, {[]string{"--sem-val=false"}, []goabnf.ABNFOption{goabnf.WithValidation(false)}},
	} {
		if len(v.fl) > 0 && v.fl[0] != "--sem-val=false" && c.Rng.IntN(3) != 0 {
			continue
		}
		lg, lerr := goabnf.ParseABNF(text, v.opts...)
		var want []byte
		if lerr == nil {
			want = []byte(lg.PrettyPrint() + "\n")
		}
		o, what := run("validate", v.fl, false)
		c.judge(what, o, want, lerr, func(a, b []byte) bool {
			// rules are not printed in any given order
			return sortedLines(string(a)) == sortedLines(string(b))
		})
	}

	// generate
	long := false
	var lifted *ref.Grammar
	if gerr == nil {
		if lifted, _ = bridge.Lift(g); lifted != nil {
			long = longWords(lifted, rule)
		}
	}
	if !long {
		for k := 0; k < 2; k++ {
			fl := []string{"--rulename", rule}
			var opts []goabnf.GenerateOption
			seed, seeded := c.Rng.Int64(), c.Rng.IntN(4) != 0
			if c.Rng.IntN(2) == 0 {
				seed = int64(c.Rng.IntN(5)) - 2
			}
			if seeded {
				fl = append(fl, fmt.Sprintf("--seed=%d", seed))
			}
			if c.Rng.IntN(2) == 0 {
				n := c.Rng.IntN(9) - 1
				fl, opts = append(fl, fmt.Sprintf("--rep-max=%d", n)), append(opts, goabnf.WithRepMax(n))
			}
			if c.Rng.IntN(2) == 0 {
				n := c.Rng.IntN(40)
				fl, opts = append(fl, fmt.Sprintf("--threshold=%d", n)), append(opts, goabnf.WithThreshold(n))
			}
			var want []byte
			lerr := gerr
			if gerr == nil {
				var b []byte
				b, lerr = g.Generate(seed, rule, opts...)
				want = append(append([]byte{}, b...), '\n')
			}
			o, what := run("generate", fl, false)
			if seeded {
				c.judge(what, o, want, lerr, nil)
			} else {
				c.judge(what, o, nil, lerr, func(a, _ []byte) bool {
					if len(a) == 0 || a[len(a)-1] != '\n' {
						return false
					}
					if lifted == nil {
						return true
					}
					// a long word of an ambiguous grammar is not decided
					v, done, _ := ref.MemberWithin(lifted, rule, a[:len(a)-1], 2_000_000)
					return v || !done
				})
			}
		}
	}

	// regex
	{
		var want []byte
		lerr := gerr
		big := false
		if gerr == nil {
			var tooBig *goabnf.ErrRegexTooLarge
			_, e := g.Regex(rule, goabnf.WithMaxRegexLen(1<<16))
			if big = errors.As(e, &tooBig); !big {
				var re string
				re, lerr = g.Regex(rule)
				want = []byte(re + "\n")
			}
		}
		if !big {
			o, what := run("regex", []string{"--rulename=" + rule}, false)
			c.judge(what, o, want, lerr, nil)
		}
	}

	// transition-graph
	for k := 0; k < 2; k++ {
		fl := []string{"--rulename", rule}
		opts := []goabnf.TGOption{}
		for _, f := range []struct {
			name string
			opt  func(bool) goabnf.TGOption
		}{{"deflate-rules", goabnf.WithDeflateRules}, {"deflate-charvals", goabnf.WithDeflateCharVals}, {"deflate-numvals", goabnf.WithDeflateNumVals}} {
			switch c.Rng.IntN(4) {
			case 0:
				fl, opts = append(fl, "--"+f.name), append(opts, f.opt(true))
			case 1:
				fl, opts = append(fl, "--"+f.name+"=true"), append(opts, f.opt(true))
			case 2:
				fl, opts = append(fl, "--"+f.name+"=false"), append(opts, f.opt(false))
			default:
				opts = append(opts, f.opt(false))
			}
		}
		if c.Rng.IntN(2) == 0 {
			n := []int{0, 1, 2, 3, 5, 300}[c.Rng.IntN(6)]
			fl, opts = append(fl, fmt.Sprintf("--repetition-threshold=%d", n)), append(opts, goabnf.WithRepetitionThreshold(n))
		}
		var want []byte
		lerr := gerr
		if gerr == nil {
			var mx *goabnf.ErrMaxNodesExceeded
			_, e := g.TransitionGraph(rule, append(opts, goabnf.WithMaxNodes(400))...)
			if errors.As(e, &mx) {
				c.Inc("graphs too large")
				continue
			}
			var tg *goabnf.TransitionGraph
			tg, lerr = g.TransitionGraph(rule, opts...)
			if lerr == nil {
				want = []byte(tg.ToMermaid() + "\n")
			}
		}
		o, what := run("transition-graph", fl, false)
		c.judge(what, o, want, lerr, func(a, b []byte) bool {
			x, e1 := readFlowchart(string(a))
			y, e2 := readFlowchart(string(b))
			return e1 == nil && e2 == nil && shapeOf(x) == shapeOf(y)
		})
	}

	// abnf-gen
	in := filepath.Join(dir, "in put.abnf")
	os.WriteFile(in, text, 0o600)
	for k := 0; k < 2; k++ {
		pkg := []string{"p", "parser", "main", "x_1", "1bad", "a b", "func"}[c.Rng.IntN(7)]
		fl := []string{"-in", in, "-root=" + rule, "-pkg", pkg}
		var opts []goabnf.ABNFOption
		if c.Rng.IntN(2) == 0 {
			fl, opts = append(fl, "-no-validate"), append(opts, goabnf.WithValidation(false))
		}
		want, lerr := goabnf.GenerateGoParserFromABNF(text, rule, pkg, opts...)
		out := filepath.Join(dir, fmt.Sprintf("out%d.go", k))
		what := fmt.Sprintf("abnf-gen stdout %q: %q", fl[2:], text)
		switch c.Rng.IntN(4) {
		case 0:
			fl = append(fl, "-out", "-")
			fallthrough
		case 1:
			c.Note("%s", what)
			c.judge(what, runTool(ag, nil, dir, fl...), want, lerr, nil)
		default:
			old := []byte(strings.Repeat("previous content\n", 1+c.Rng.IntN(9000)))
			had := c.Rng.IntN(2) == 0
			if had {
				os.WriteFile(out, old, 0o600)
			}
			what = fmt.Sprintf("abnf-gen file %q over %v: %q", fl[2:], had, text)
			c.Note("%s", what)
			o := runTool(ag, nil, dir, append(fl, "-out="+out)...)
			got, rerr := os.ReadFile(out)
			c.judge(what, o, nil, lerr, nil)
			if lerr == nil && (rerr != nil || !bytes.Equal(got, want)) {
				c.Fail(what, "%s: the file holds %d bytes (%v) instead of the %d of the library's source", what, len(got), rerr, len(want))
			}
			if lerr != nil && (had && !bytes.Equal(got, old) || !had && rerr == nil) {
				c.Fail(what, "%s: fails, yet the output file was written", what)
			}
		}
	}

	// misuse
	if c.Rng.IntN(4) == 0 {
		for _, m := range []struct {
			tool string
			args []string
		}{
			{pap, []string{"generate"}}, {pap, []string{"regex"}}, {pap, []string{"transition-graph"}}, {pap, []string{"validate", "--input", filepath.Join(dir, "absent")}},
			{pap, []string{"regex", "--rulename=" + rule, "--input", filepath.Join(dir, "absent")}}, {pap, []string{"generate", "--rulename=" + rule, "--input", dir}},
			{pap, []string{"transition-graph", "--rulename=" + rule, "--input", dir}}, {pap, []string{"validate", "--nope"}}, {pap, []string{"generate", "--rulename=" + rule, "--seed=x"}},
			{ag, nil}, {ag, []string{"-in", in}}, {ag, []string{"-in", in, "-root", rule}}, {ag, []string{"-in", in, "-pkg", "p"}}, {ag, []string{"-root", rule, "-pkg", "p"}},
			{ag, []string{"-in", filepath.Join(dir, "absent"), "-root", rule, "-pkg", "p"}}, {ag, []string{"-in", in, "-root", rule, "-pkg", "p", "-out", filepath.Join(dir, "no", "dir.go")}},
		} {
			o := runTool(m.tool, text, dir, m.args...)
			c.Eval(true, "misuse", strings.Join(m.args, " "), string(text))
			c.Inc("misuses")
			if o.rc == 0 || len(o.err) == 0 || o.hung || bytes.Contains(o.out, []byte("package p")) {
				c.Fail(fmt.Sprintf("misuse %s %q", filepath.Base(m.tool), m.args), "%s %q: %s", filepath.Base(m.tool), m.args, o)
			}
		}
	}
}

func init() {
	register(&Prop{ID: "C24", Count: tiers(600, 6000), Run: c24, Prepare: c24prepare, CaseSec: 240,
		Rule: "runs of the built pap and abnf-gen on random, directed and shipped grammars, valid or not, through files and standard input, with every flag; exit status, stdout, stderr and output file against the library's answer"})
}

package main

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	goabnf "github.com/pandatix/go-abnf"

	"verif/bridge"
	"verif/gen"
	"verif/ref"
)

// ------------------------------------------------------------ C20 sharing

// dump prints a grammar's public structure in full (interface types, lengths,
// every value), so that any change to it shows.
func dump(v any) string {
	var sb strings.Builder
	dumpV(reflect.ValueOf(v), &sb, 0)
	return sb.String()
}

func dumpV(v reflect.Value, sb *strings.Builder, d int) {
	if d > 5000 {
		sb.WriteString("deep")
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		sb.WriteString("nil")
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteString(v.Type().String() + "->")
		dumpV(v.Elem(), sb, d+1)
	case reflect.Struct:
		t := v.Type()
		sb.WriteString(t.Name() + "{")
		if s, ok := proseText(v); ok {
			sb.WriteString(s)
		}
		for i := 0; i < v.NumField(); i++ {
			if t.Field(i).IsExported() {
				sb.WriteString(t.Field(i).Name + ":")
				dumpV(v.Field(i), sb, d+1)
				sb.WriteString(" ")
			}
		}
		sb.WriteString("}")
	case reflect.Slice:
		fmt.Fprintf(sb, "%d[", v.Len())
		for i := 0; i < v.Len(); i++ {
			dumpV(v.Index(i), sb, d+1)
			sb.WriteString(",")
		}
		sb.WriteString("]")
	case reflect.Map:
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
		for _, k := range ks {
			fmt.Fprintf(sb, "%q=>", k.String())
			dumpV(v.MapIndex(k), sb, d+1)
			sb.WriteString(";")
		}
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	case reflect.Uint8, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(sb, v.Uint())
	default:
		sb.WriteString(v.Kind().String())
	}
}

func proseText(v reflect.Value) (string, bool) {
	if v.Type() == reflect.TypeOf(goabnf.ElemProseVal{}) && v.CanInterface() {
		return v.Interface().(goabnf.ElemProseVal).String(), true
	}
	return "", false
}

var coreNames = []string{"ALPHA", "BIT", "CHAR", "CR", "CRLF", "CTL", "DIGIT", "DQUOTE", "HEXDIG", "HTAB", "LF", "LWSP", "OCTET", "SP", "VCHAR", "WSP"}

func dumpCore() string {
	var sb strings.Builder
	for _, n := range coreNames {
		sb.WriteString(dump(goabnf.GetRule(n, nil)))
	}
	return sb.String()
}

// task is one call and what it answered.
type task struct {
	what string
	run  func() string
	want string // answer alone
	got  []string
}

type ev struct {
	at   int64
	task int
	end  bool
}

// storm runs every task from every goroutine, each in its own order, without
// any synchronisation between start and finish; the schedule seen is recorded
// from per-goroutine logs.
func storm(c *Case, tasks []*task, workers, rounds int) {
	logs := make([][]ev, workers)
	got := make([][]string, workers)
	orders := make([][]int, workers)
	jit := make([]*rand.Rand, workers)
	for w := range orders {
		jit[w] = rand.New(rand.NewPCG(c.Rng.Uint64(), c.Rng.Uint64()))
		for r := 0; r < rounds; r++ {
			orders[w] = append(orders[w], c.Rng.Perm(len(tasks))...)
		}
		if w%3 == 2 { // some start on the same task, to meet in cold state
			orders[w][0] = orders[0][0]
		}
		got[w] = make([]string, len(orders[w]))
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	t0 := time.Now()
	pans := make([]string, workers)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			cur := ""
			defer func() {
				if r := recover(); r != nil {
					pans[w] = fmt.Sprintf("panic in %s: %v\n%s", cur, r, shortStack())
				}
			}()
			<-start
			for k, t := range orders[w] {
				for n := jit[w].IntN(4); n > 0; n-- {
					runtime.Gosched()
				}
				if n := jit[w].IntN(400); n > 200 { // spin a little
					x := 0
					for i := 0; i < n*50; i++ {
						x += i
					}
					got[w][k] = fmt.Sprint(x)
				}
				cur = tasks[t].what
				logs[w] = append(logs[w], ev{int64(time.Since(t0)), t, false})
				got[w][k] = tasks[t].run()
				logs[w] = append(logs[w], ev{int64(time.Since(t0)), t, true})
			}
		}(w)
	}
	close(start)
	wg.Wait()
	for w := 0; w < workers; w++ {
		if pans[w] != "" {
			c.Fail("panic", "%s", pans[w])
			return
		}
		for k, t := range orders[w] {
			tasks[t].got = append(tasks[t].got, got[w][k])
		}
	}
	// offline: which calls overlapped, in which order they finished
	var all []ev
	for _, l := range logs {
		all = append(all, l...)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].at < all[j].at })
	open := map[int]int{}
	pairs := map[[2]string]bool{}
	var sched strings.Builder
	nopen, peak := 0, 0
	for _, e := range all {
		if e.end {
			open[e.task]--
			if open[e.task] == 0 {
				delete(open, e.task)
			}
			nopen--
			fmt.Fprintf(&sched, "%d ", e.task)
			continue
		}
		for o := range open {
			a, b := opName(tasks[o].what), opName(tasks[e.task].what)
			if a > b {
				a, b = b, a
			}
			pairs[[2]string{a, b}] = true
		}
		open[e.task]++
		nopen++
		peak = max(peak, nopen)
	}
	for p := range pairs {
		c.Inc("overlap " + p[0] + " || " + p[1])
	}
	c.Inc(fmt.Sprintf("peak_concurrency_%d", peak))
	c.Add("concurrent_calls", len(all)/2)
	c.Eval(len(pairs) > 0, "schedule", fmt.Sprint(c.Idx), sched.String())
}

func opName(s string) string {
	n, _, _ := strings.Cut(s, "(")
	return n
}

func settle(c *Case, tasks []*task, text string) {
	for _, t := range tasks {
		for _, g := range t.got {
			c.Eval(true, t.what, t.want)
			if g != t.want {
				c.Fail("answer "+t.what, "%s answers %s among concurrent calls, %s alone\n%s", t.what, g, t.want, text)
				return
			}
		}
	}
}

func clone(b []byte) []byte { return append([]byte{}, b...) }

func c20(c *Case) {
	if c.Idx%4 == 3 {
		c20front(c)
		return
	}
	cc := *c
	cc.Idx = c.Idx - c.Idx/4
	var shared, alone *Work
	if c.Idx == 0 || c.Idx%40 == 1 {
		shared = &Work{L: goabnf.ABNF, Root: "rulelist", Text: "the ABNF grammar of the package"}
		r, err := bridge.Lift(goabnf.ABNF)
		if err != nil {
			c.Fail("lift", "the ABNF grammar can't be read: %v", err)
			return
		}
		shared.R, alone = r, shared
	} else {
		ws, _ := engineWork(&cc, true)
		for _, w := range ws {
			if !nullableBounded(w.R, w.Root, 8) && shared == nil {
				shared = w
			}
		}
		if shared == nil {
			c.Inc("skipped_nullable_bounded")
			return
		}
		if shared.Via == "ast" {
			alone = viaAST(shared.R, shared.Root)
		} else {
			alone = viaText(shared.Text, shared.Root)
		}
	}
	before, coreBefore := dump(shared.L), dumpCore()
	var ins [][]byte
	if shared.L == goabnf.ABNF {
		for i := 0; i < 4; i++ {
			ins = append(ins, []byte(texts(&cc)[0]))
			if len(ins[i]) > 120 {
				ins[i] = ins[i][:120]
			}
		}
	} else {
		ins = gen.Inputs(c.Rng, shared.R, shared.Root, 4, 8)
	}
	var keep [][]byte
	for _, in := range ins {
		keep = append(keep, clone(in))
	}
	tps := tapes(&cc, 3)
	var keepT [][]byte
	for _, t := range tps {
		keepT = append(keepT, clone(t))
	}
	var tasks []*task
	var runs []func(*goabnf.Grammar) string
	for _, o := range ops {
		n := 1
		if o.rule && !o.graph {
			n = 2
		}
		for k := 0; k < n; k++ {
			o := o
			root := shared.Root
			if k > 0 && len(shared.R.Rules) > 1 && shared.L != goabnf.ABNF {
				root = shared.R.Rules[c.Rng.IntN(len(shared.R.Rules))].Name
				if nullableBounded(shared.R, root, 8) {
					root = shared.Root
				}
			}
			if o.producing() && longWords(shared.R, root) {
				continue
			}
			root = spellAny(c, root)
			in, tp, seed := ins[c.Rng.IntN(len(ins))], tps[c.Rng.IntN(len(tps))], c.Rng.Int64N(1<<40)
			run := func(g *goabnf.Grammar) string {
				return o.run(opArgs{g: g, rule: root, in: in, tape: tp, seed: seed})
			}
			runs = append(runs, run)
			tasks = append(tasks, &task{what: fmt.Sprintf("%s(%s, %q, seed %d)", o.name, root, in, seed), run: func() string { return run(shared.L) }})
		}
	}
	c.Note("%d tasks on %s", len(tasks), shared.Text)
	storm(c, tasks, 6, 1)
	// alone: on an equal grammar of its own, and on the shared one afterwards
	for i, t := range tasks {
		t.want = runs[i](alone.L)
		t.got = append(t.got, runs[i](shared.L))
	}
	settle(c, tasks, shared.Text)
	if after := dump(shared.L); after != before {
		c.Fail("modified "+shared.Text, "the grammar was modified:\n%s\nbefore: %s\nafter:  %s", shared.Text, before, after)
	}
	if after := dumpCore(); after != coreBefore {
		c.Fail("core-modified", "core rules were modified by calls on\n%s\nbefore: %s\nafter:  %s", shared.Text, coreBefore, after)
	}
	for i := range ins {
		if string(ins[i]) != string(keep[i]) {
			c.Fail("input", "input %q was modified to %q\n%s", keep[i], ins[i], shared.Text)
		}
	}
	for i := range tps {
		if string(tps[i]) != string(keepT[i]) {
			c.Fail("tape", "tape %q was modified to %q\n%s", keepT[i], tps[i], shared.Text)
		}
	}
	c.Sample("%d calls by 6 goroutines on\n%s", len(tasks)*6, shared.Text)
}

var coreTweaks = []string{
	"DIGIT = \"x\"|s = 2DIGIT|", "digit = %x41|s = HEXDIG|", "WSP = \"_\"|s = LWSP \"a\"|",
	"ALPHA =/ \"_\"|s = 1*ALPHA|", "alpha =/ DIGIT|s = ALPHA|", "HEXDIG =/ \"g\"|s = 1*HEXDIG|",
	"CRLF =/ LF|s = \"a\" CRLF|", "LF = CR|s = CRLF|", "s = CRLF|CRLF = \";\"|", "VCHAR =/ WSP|s = *VCHAR|",
	"s = LWSP \"b\"|LWSP = *\"-\"|", "OCTET =/ %x100-10FFFF|s = 2OCTET|",
}

// c20front: concurrent parsing of grammar texts, some of which extend or
// redefine core rules, next to uses of the core rules and the ABNF grammar.
func c20front(c *Case) {
	coreBefore, abnfBefore := dumpCore(), dump(goabnf.ABNF)
	var tasks []*task
	var srcs, keep [][]byte
	for k := 0; k < 8; k++ {
		var text string
		if k < 4 {
			text = strings.ReplaceAll(coreTweaks[c.Rng.IntN(len(coreTweaks))], "|", "\r\n")
		} else {
			p := gen.RandomProfile(c.Rng)
			p.Rules = min(p.Rules, 3)
			text = gen.Random(c.Rng, p).Text()
			if len(text) > 400 {
				text = text[:400]
			}
		}
		src := []byte(text)
		srcs, keep = append(srcs, src), append(keep, clone(src))
		val, redef := c.Rng.IntN(2) == 0, k%2 == 0
		tasks = append(tasks, &task{what: fmt.Sprintf("ParseABNF(%q, validation %v, redefine %v)", text, val, redef), run: func() string {
			g, err := goabnf.ParseABNF(src, goabnf.WithValidation(val), goabnf.WithRedefineCoreRules(redef))
			if err != nil {
				if g != nil {
					return "grammar and error"
				}
				return fmt.Sprintf("error %T", err)
			}
			return dump(g)
		}})
		if k < 4 {
			tasks = append(tasks, &task{what: fmt.Sprintf("GenerateGoParserFromABNF(%q)", text), run: func() string {
				b, err := goabnf.GenerateGoParserFromABNF(src, "s", "p", goabnf.WithRedefineCoreRules(redef))
				return hash(string(b)) + errDesc(err)
			}})
		}
	}
	use := viaText("a = ALPHA / DIGIT / HEXDIG / WSP / VCHAR / LWSP / CRLF / OCTET\r\nb = 2a\r\n", "b")
	if use == nil {
		c.Fail("refused", "a grammar of core rules is refused")
		return
	}
	for _, in := range []string{"__", "xx", "g1", ";;", "\n\n", "é1", "a\r\n", "-b"} {
		in := []byte(in)
		tasks = append(tasks, &task{what: fmt.Sprintf("IsValid(b, %q)", in), run: func() string {
			v, err := use.L.IsValid("b", in)
			return fmt.Sprint(v, err)
		}, want: fmt.Sprint(ref.Member(use.R, "b", in), nil)})
	}
	for _, n := range coreNames {
		n := n
		tasks = append(tasks, &task{what: "GetRule(" + n + ")", run: func() string { return dump(goabnf.GetRule(n, use.L.Rulemap)) }})
	}
	tasks = append(tasks, &task{what: "Print(ABNF)", run: func() string { return hash(sortedLines(goabnf.ABNF.PrettyPrint())) }})
	tasks = append(tasks, &task{what: "SemvalABNF(ABNF)", run: func() string { return fmt.Sprint(goabnf.SemvalABNF(goabnf.ABNF)) }})
	storm(c, tasks, 6, 1)
	for _, t := range tasks {
		a := t.run()
		if t.want == "" {
			t.want = a
		} else {
			t.got = append(t.got, a)
		}
	}
	settle(c, tasks, "")
	if after := dumpCore(); after != coreBefore {
		c.Fail("core-modified", "core rules were modified by reading grammars\nbefore: %s\nafter:  %s\n%q", coreBefore, after, keep)
	}
	if after := dump(goabnf.ABNF); after != abnfBefore {
		c.Fail("abnf-modified", "the ABNF grammar was modified by reading grammars\nbefore: %s\nafter:  %s\n%q", abnfBefore, after, keep)
	}
	for i := range srcs {
		if string(srcs[i]) != string(keep[i]) {
			c.Fail("source", "grammar text %q was modified to %q", keep[i], srcs[i])
		}
	}
}

func init() {
	register(&Prop{ID: "C20", Count: tiers(500, 8000), Run: c20, Procs: 3, GoMax: 4, CaseSec: 120,
		Rule:   "every operation started by six goroutines in independent random orders on one cold shared grammar (built with -race), answers compared with those on an equal grammar of its own; grammar, core rules, inputs and tapes dumped before and after; non-trivial: distinct schedules with overlapping calls, and calls",
		Assume: []string{"one Generator, reader or forest is used by one goroutine at a time; only grammars are shared"}})
}

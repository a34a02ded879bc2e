package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

const memLimit = 3 << 30

// development aids
var (
	slowMS, _   = strconv.Atoi(os.Getenv("VMON_SLOW"))  // report slow cases
	procsDev, _ = strconv.Atoi(os.Getenv("VMON_PROCS")) // shards at once
	firstDev    = os.Getenv("VMON_FIRST") != ""         // stop at the first violation
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vmon run|shard|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		runParent(os.Args[2:])
	case "shard":
		runShard(os.Args[2:])
	case "replay":
		runReplay(os.Args[2:])
	case "list":
		for _, k := range sortedKeys(props) {
			fmt.Println(k, props[k].Count("quick"), props[k].Count("thorough"))
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

// ------------------------------------------------------------------- shard

func runShard(args []string) {
	fs := flag.NewFlagSet("shard", flag.ExitOnError)
	id := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	step := fs.Int("step", 1, "")
	to := fs.Int("to", 0, "")
	out := fs.String("out", "", "result file")
	fly := fs.String("fly", "", "in-flight file")
	scratch := fs.String("scratch", "", "")
	sec := fs.Int("sec", 60, "per-case watchdog")
	notes := fs.Bool("notes", false, "")
	fs.Parse(args)
	p := props[*id]
	if p == nil {
		os.Exit(2)
	}
	gm := p.GoMax
	if gm == 0 {
		gm = 1
	}
	runtime.GOMAXPROCS(gm)
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(2 << 30)
	var flyF *os.File
	if *fly != "" {
		flyF, _ = os.OpenFile(*fly, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
	}
	var started atomic.Int64
	started.Store(time.Now().UnixNano())
	go func() { // watchdog thread: hangs and runaway memory
		for {
			time.Sleep(250 * time.Millisecond)
			if heap() > memLimit {
				fmt.Fprintln(os.Stderr, "WATCHDOG memory")
				os.Exit(5)
			}
			if time.Now().UnixNano()-started.Load() > int64(*sec)*1e9 {
				fmt.Fprintln(os.Stderr, "WATCHDOG time")
				buf := make([]byte, 1<<16)
				os.Stderr.Write(buf[:runtime.Stack(buf, true)])
				os.Exit(4)
			}
		}
	}()
	st := newStats()
	flush := func() {
		st.Hashes = st.Hashes[:0]
		for h := range st.hset {
			st.Hashes = append(st.Hashes, h)
		}
		b, _ := json.Marshal(st)
		os.WriteFile(*out+".tmp", b, 0o644)
		os.Rename(*out+".tmp", *out)
	}
	var mu sync.Mutex
	lastFlush := time.Now()
	for i := *from; i < *to; i += *step {
		if flyF != nil {
			flyF.WriteAt([]byte(fmt.Sprintf("%12d", i)), 0)
		}
		started.Store(time.Now().UnixNano())
		c := &Case{Prop: *id, Idx: i, Tier: *tier, Seed: *seed, Rng: caseRng(*seed, *id, i), Scratch: *scratch, mu: &mu, st: st, notes: *notes}
		nv := len(st.Viol)
		t0 := time.Now()
		runCase(p, c)
		st.CasesRun++
		if d := time.Since(t0); slowMS > 0 && d > time.Duration(slowMS)*time.Millisecond {
			fmt.Fprintf(os.Stderr, "SLOW %s case %d: %.1fs\n", *id, i, d.Seconds())
		}
		if *notes || len(st.Viol) > nv || time.Since(lastFlush) > 5*time.Second {
			flush()
			lastFlush = time.Now()
		}
		if len(st.Viol) >= 20 || firstDev && len(st.Viol) > 0 {
			break
		}
	}
	flush()
	os.Exit(0)
}

// ------------------------------------------------------------------ parent

type merged struct {
	sync.Mutex
	shardStats
	inconclusive int
	crashes      int
	infra        string
}

func (m *merged) take(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	var s shardStats
	if json.Unmarshal(b, &s) != nil {
		return
	}
	m.Lock()
	defer m.Unlock()
	m.Evals += s.Evals
	m.CasesRun += s.CasesRun
	for k, v := range s.Counts {
		m.Counts[k] += v
	}
	for _, h := range s.Hashes {
		m.hset[h] = struct{}{}
	}
	for _, x := range s.Samples {
		if len(m.Samples) < 12 {
			m.Samples = append(m.Samples, x)
		}
	}
	m.Viol = append(m.Viol, s.Viol...)
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

func runParent(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	id := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	verif := fs.String("verif", "/verif", "")
	limit := fs.Int("cases", 0, "override case count")
	only := fs.Int("only", -1, "single case")
	fs.Parse(args)
	t0 := time.Now()
	p := props[*id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		os.Exit(2)
	}
	scratch, err := os.MkdirTemp("", "vmon")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	total := p.Count(*tier)
	if *limit > 0 {
		total = *limit
	}
	known, err := loadKnown(filepath.Join(*verif, "known_findings.txt"), *id)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	m := &merged{shardStats: *newStats()}
	if p.Prepare != nil {
		if err := p.Prepare(scratch); err != nil {
			fmt.Fprintln(os.Stderr, err) // nothing was decided
			os.RemoveAll(scratch)
			os.Exit(2)
		}
	}
	procs := p.Procs
	if procs == 0 {
		procs = 8
	}
	if procsDev > 0 {
		procs = procsDev
	}
	from0 := 0
	if *only >= 0 {
		procs, from0, total = 1, *only, *only+1
	}
	sec := p.CaseSec
	if sec == 0 {
		sec = 60
	}
	self, _ := os.Executable()
	// A confirmed crash or hang ends the run: every further one costs minutes
	// and the answer is known. The soft limit keeps a quick check inside its
	// time on a slow machine; what was explored until then is what is judged.
	soft, hard := 10*time.Minute, 13*time.Minute
	if *tier != "quick" {
		soft, hard = 4*time.Hour, 5*time.Hour
	}
	hctx, hcancel := context.WithTimeout(context.Background(), hard)
	defer hcancel()
	ctx, stop := context.WithTimeout(hctx, soft)
	defer stop()
	spawn := func(ctx context.Context, out, fly string, from, step, to, sec int, notes bool) (int, string) {
		a := []string{"shard", "-prop", *id, "-tier", *tier, "-seed", fmt.Sprint(*seed), "-from", fmt.Sprint(from), "-step", fmt.Sprint(step),
			"-to", fmt.Sprint(to), "-out", out, "-fly", fly, "-scratch", scratch, "-sec", fmt.Sprint(sec)}
		if notes {
			a = append(a, "-notes")
		}
		cmd := exec.CommandContext(ctx, self, a...)
		var eb bytes.Buffer
		cmd.Stderr = &capWriter{b: &eb, max: 1 << 20}
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single")
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		err := cmd.Run()
		if err == nil {
			return 0, eb.String()
		}
		if ee, ok := err.(*exec.ExitError); ok {
			return ee.ExitCode(), eb.String()
		}
		return 99, err.Error()
	}
	var wg sync.WaitGroup
	for s := 0; s < procs; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			runtime.LockOSThread() // Pdeathsig is per thread
			from := from0 + s
			for gen := 0; from < total && gen < 12; gen++ {
				out := filepath.Join(scratch, fmt.Sprintf("s%d.%d.json", s, gen))
				fly := filepath.Join(scratch, fmt.Sprintf("s%d.%d.fly", s, gen))
				rc, se := spawn(ctx, out, fly, from, procs, total, sec, false)
				m.take(out)
				if rc == 0 || ctx.Err() != nil {
					return
				}
				fb, _ := os.ReadFile(fly)
				idx, e := strconv.Atoi(strings.TrimSpace(string(fb)))
				if e != nil {
					m.Lock()
					m.Viol = append(m.Viol, Violation{Prop: *id, Tier: *tier, Seed: *seed, Idx: -1, Key: "shard", Msg: "monitored process died before its first case", Log: tail(se, 8000)})
					m.Unlock()
					return
				}
				if rc == 66 {
					m.Lock()
					m.Viol = append(m.Viol, Violation{Prop: *id, Tier: *tier, Seed: *seed, Idx: idx, Key: "race", Msg: "data race reported by the race detector", Log: tail(se, 12000)})
					m.Unlock()
				} else {
					// confirm alone, with a more generous clock
					o2 := out + ".alone"
					rc2, se2 := spawn(hctx, o2, fly+".alone", idx, 1, idx+1, max(sec, min(2*sec, 150)), true)
					m.take(o2)
					if hctx.Err() != nil {
						return
					}
					m.Lock()
					m.crashes++
					if rc2 == 3 { // the machinery itself could not work
						m.infra = tail(se2, 4000)
					} else if rc2 != 0 {
						what := map[int]string{4: "does not return (watchdog)", 5: "exhausts memory", 2: "crashes the process", 66: "data race"}[rc2]
						if what == "" {
							what = fmt.Sprintf("kills the process (status %d)", rc2)
						}
						last := ""
						for _, l := range strings.Split(se2, "\n") {
							if strings.HasPrefix(l, "NOTE ") {
								last = l[5:]
							}
						}
						m.Viol = append(m.Viol, Violation{Prop: *id, Tier: *tier, Seed: *seed, Idx: idx, Key: "crash " + last, Msg: what + " during: " + last, Log: tail(se2, 8000)})
						if !isKnown(known, m.Viol[len(m.Viol)-1].Key) {
							stop()
						}
					} else {
						m.inconclusive++
						fmt.Fprintf(os.Stderr, "inconclusive: case %d ended with status %d once, fine alone\n%s\n", idx, rc, tail(se, 2000))
					}
					m.Unlock()
				}
				from = idx + procs
			}
		}(s)
	}
	wg.Wait()
	os.RemoveAll(scratch)
	if m.infra != "" {
		fmt.Fprintln(os.Stderr, "the machinery could not work:", m.infra)
		os.Exit(2)
	}

	var viol []Violation
	hit := map[int]int{}
next:
	for _, v := range m.Viol {
		for i, k := range known {
			if k.matches(v.Key) {
				hit[i]++
				continue next
			}
		}
		viol = append(viol, v)
	}
	for i, k := range known {
		if hit[i] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *id, k.what)
		}
	}
	if *only < 0 && m.Evals == 0 && len(viol) == 0 {
		fmt.Fprintln(os.Stderr, "nothing observed")
		os.Exit(2)
	}
	rd := filepath.Join(*verif, "evidence", "replays")
	os.MkdirAll(rd, 0o755)
	if *only < 0 {
		old, _ := filepath.Glob(filepath.Join(rd, *id+"-*.json"))
		for _, f := range old {
			os.Remove(f)
		}
	}
	seenKey := map[string]bool{}
	printed := 0
	for i, v := range viol {
		if seenKey[v.Key] || printed >= 10 {
			continue
		}
		seenKey[v.Key] = true
		f := filepath.Join(rd, fmt.Sprintf("%s-%d.json", *id, i))
		writeJSON(f, v)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *id, f)
		fmt.Printf("  case %d key=%q: %s\n", v.Idx, v.Key, firstLines(v.Msg, 12))
		printed++
	}
	cov := map[string]any{
		"evaluations":         m.Evals,
		"distinct_nontrivial": len(m.hset),
		"rule":                p.Rule,
		"samples":             m.Samples,
		"cases":               m.CasesRun,
		"observed":            m.Counts,
		"inconclusive_cases":  m.inconclusive,
		"stopped_early":       ctx.Err() != nil,
	}
	if m.Samples == nil {
		cov["samples"] = []string{}
	}
	ev := map[string]any{
		"property": *id, "tier": *tier, "seed": *seed, "level": "exploration",
		"coverage": cov, "wall_s": float64(int(time.Since(t0).Seconds()*100)) / 100, "violations": len(viol),
	}
	if len(p.Assume) > 0 {
		ev["assumptions"] = p.Assume
	}
	if *only < 0 {
		if err := writeJSON(filepath.Join(*verif, "evidence", *id+".json"), ev); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	fmt.Printf("%s %s: %d cases, %d evaluations, %d distinct non-trivial, %d violations, %d inconclusive, %.1fs\n", *id, *tier, m.CasesRun, m.Evals, len(m.hset), len(viol), m.inconclusive, time.Since(t0).Seconds())
	if os.Getenv("VMON_COUNTS") != "" {
		for _, k := range sortedKeys(m.Counts) {
			fmt.Printf("   %-40s %d\n", k, m.Counts[k])
		}
	}
	if len(viol) > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n  ")
}

type capWriter struct {
	b   *bytes.Buffer
	max int
}

// capWriter keeps the head and a sliding tail.
func (w *capWriter) Write(p []byte) (int, error) {
	w.b.Write(p)
	if w.b.Len() > w.max {
		t := append([]byte{}, w.b.Bytes()[w.b.Len()-w.max/2:]...)
		w.b.Reset()
		w.b.Write(t)
	}
	return len(p), nil
}

type knownFinding struct{ key, what string }

func isKnown(ks []knownFinding, key string) bool {
	for _, k := range ks {
		if k.matches(key) {
			return true
		}
	}
	return false
}

func (k knownFinding) matches(key string) bool { return k.key == key }

// known_findings.txt lines:
//
//	open: property=<id> key=<exact violation key, Go-quoted> <what fails>
//	fixed: property=<id> <commit> <what failed>        (suppresses nothing)
func loadKnown(path, id string) ([]knownFinding, error) {
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "open: property="+id+" key=")
		if !ok {
			continue
		}
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			return nil, fmt.Errorf("%s: %q: %w", path, l, err)
		}
		k, _ := strconv.Unquote(q)
		out = append(out, knownFinding{k, strings.TrimSpace(rest[len(q):])})
	}
	return out, nil
}

func runReplay(args []string) {
	if len(args) < 1 {
		os.Exit(2)
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	runParent([]string{"-prop", v.Prop, "-tier", v.Tier, "-seed", fmt.Sprint(v.Seed), "-only", fmt.Sprint(v.Idx)})
}

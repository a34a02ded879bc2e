// vmon: runtime monitors for pandatix/go-abnf. Every property is a list of
// numbered cases; a case drives the real library on a workload derived from
// (seed, property, index) while an independent oracle watches the answers.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
)

type Violation struct {
	Prop string `json:"property"`
	Tier string `json:"tier"`
	Seed uint64 `json:"seed"`
	Idx  int    `json:"case"`
	Key  string `json:"key"` // stable identity of the failing call and input
	Msg  string `json:"what"`
	Log  string `json:"log,omitempty"`
}

type Prop struct {
	ID      string
	Count   func(tier string) int
	Run     func(c *Case)
	Rule    string
	Assume  []string
	Procs   int                        // shards at once (default 8)
	GoMax   int                        // GOMAXPROCS in a shard (default 1)
	CaseSec int                        // per-case watchdog, seconds (default 60)
	Prepare func(scratch string) error // in the parent, once
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Case is one unit of work.
type Case struct {
	Prop    string
	Idx     int
	Tier    string
	Seed    uint64
	Rng     *rand.Rand
	Scratch string

	mu    *sync.Mutex
	st    *shardStats
	notes bool
	last  string
	fails int
}

type shardStats struct {
	Evals    int            `json:"evals"`
	Counts   map[string]int `json:"counts"`
	Samples  []string       `json:"samples"`
	Viol     []Violation    `json:"violations"`
	CasesRun int            `json:"cases"`
	Hashes   []uint64       `json:"hashes"` // distinct non-trivial case hashes
	hset     map[uint64]struct{}
}

func newStats() *shardStats {
	return &shardStats{Counts: map[string]int{}, hset: map[uint64]struct{}{}}
}

func caseRng(seed uint64, prop string, idx int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, prop, idx)
	return rand.New(rand.NewPCG(h.Sum64(), uint64(idx)*0x9E3779B97F4A7C15+seed))
}

// Quick reports the quick tier.
func (c *Case) Quick() bool { return c.Tier != "thorough" }

// Eval counts one oracle evaluation; nontrivial ones are hashed by key parts.
func (c *Case) Eval(nontrivial bool, parts ...string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.st.Evals++
	if nontrivial {
		h := fnv.New64a()
		for _, p := range parts {
			h.Write([]byte(p))
			h.Write([]byte{0})
		}
		c.st.hset[h.Sum64()] = struct{}{}
	}
}

func (c *Case) Inc(name string) { c.Add(name, 1) }
func (c *Case) Add(name string, n int) {
	c.mu.Lock()
	c.st.Counts[name] += n
	c.mu.Unlock()
}

func (c *Case) Sample(format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.st.Samples) < 6 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		c.st.Samples = append(c.st.Samples, s)
	}
}

// Note says what is about to be run (shown when the process dies).
func (c *Case) Note(format string, a ...any) {
	if c.notes {
		s := fmt.Sprintf(format, a...)
		if len(s) > 2000 {
			s = s[:2000] + "..."
		}
		fmt.Fprintf(os.Stderr, "NOTE %s\n", strings.ReplaceAll(s, "\n", "\\n"))
	}
}

// Fail records a violation.
func (c *Case) Fail(key, format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.fails++
	c.st.Counts["violations_raw"]++
	if c.fails > 5 || len(c.st.Viol) > 40 {
		return
	}
	m := fmt.Sprintf(format, a...)
	if len(m) > 6000 {
		m = m[:6000] + "..."
	}
	c.st.Viol = append(c.st.Viol, Violation{Prop: c.Prop, Tier: c.Tier, Seed: c.Seed, Idx: c.Idx, Key: key, Msg: m})
}

// Safe runs f and turns a panic into a violation; reports whether f returned.
func (c *Case) Safe(what string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
			c.Fail("panic "+what, "panic in %s: %v\n%s", what, r, shortStack())
		}
	}()
	c.Note("%s", what)
	f()
	return true
}

func shortStack() string {
	s := string(debug.Stack())
	ls := strings.Split(s, "\n")
	if len(ls) > 40 {
		ls = ls[:40]
	}
	return strings.Join(ls, "\n")
}

func runCase(p *Prop, c *Case) {
	defer func() {
		if r := recover(); r != nil {
			c.Fail("panic", "panic: %v\n%s", r, shortStack())
		}
	}()
	p.Run(c)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func writeJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

func heap() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

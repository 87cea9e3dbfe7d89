// Package chk runs the cases of a check, in parallel and reproducibly, and
// writes the evidence, the violations and their replays.
//
// Every case is identified by its name and draws its randomness from a
// generator determined by (seed, name), so a case can be replayed alone.
package chk

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Dir is the root of the framework.
var Dir = dir()

func dir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// Check is a running check.
type Check struct {
	ID       string
	Tier     string
	Seed     int64
	Thorough bool

	mu         sync.Mutex
	evals      int64
	keys       map[string]int64
	stats      map[string]int64
	samples    []any
	violations []violation
	broken     []string
	cases      int64
	sem        chan struct{}
	wg         sync.WaitGroup
	only       string
	out        *os.File
	level      string
	assume     []string
	rule       string
	t0         time.Time
	need       []string
}

type violation struct {
	Case   string `json:"case"`
	Detail string `json:"detail"`
}

// T is one case.
type T struct {
	C    *Check
	Name string
	R    *rand.Rand
	nf   int
}

// Opt describes a check for its evidence.
type Opt struct {
	ID, Level, Rule string
	Assumptions     []string
	// Need lists the kinds of events (prefixes of keys) without which the run
	// observed too little to conclude.
	Need []string
	Par  int
}

// Main runs a check and exits.
func Main(o Opt, run func(c *Check)) {
	tier := os.Getenv("VERIF_TIER")
	if len(os.Args) > 1 {
		tier = os.Args[1]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	if o.Par == 0 {
		o.Par = runtime.NumCPU()
	}
	c := &Check{ID: o.ID, Tier: tier, Seed: seed, Thorough: tier == "thorough", keys: map[string]int64{}, stats: map[string]int64{},
		sem: make(chan struct{}, o.Par), only: os.Getenv("VERIF_CASE"), level: o.Level, assume: o.Assumptions, rule: o.Rule, t0: time.Now(), need: o.Need}
	c.out = os.Stdout
	// the code under test prints; keep stdout for the verdict
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = f
	}
	_ = io.Discard
	if f := os.Getenv("VERIF_PROF"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				c.crash("main", r, string(debug.Stack()))
			}
		}()
		run(c)
	}()
	c.wg.Wait()
	pprof.StopCPUProfile()
	os.Exit(c.finish())
}

// Say prints a line on the real stdout.
func (c *Check) Say(f string, a ...any) { fmt.Fprintf(c.out, f+"\n", a...) }

func mix(seed int64, name string) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s", seed, name)
	return int64(h.Sum64() >> 1)
}

// Case schedules a case.
func (c *Check) Case(name string, f func(t *T)) {
	if c.only != "" && c.only != name {
		return
	}
	atomic.AddInt64(&c.cases, 1)
	c.sem <- struct{}{}
	c.wg.Add(1)
	go func() {
		defer func() { <-c.sem; c.wg.Done() }()
		c.run(name, f)
	}()
}

// Serial runs a case in this goroutine.
func (c *Check) Serial(name string, f func(t *T)) {
	if c.only != "" && c.only != name {
		return
	}
	atomic.AddInt64(&c.cases, 1)
	c.run(name, f)
}

// Wait waits for the cases scheduled so far.
func (c *Check) Wait() { c.wg.Wait() }

func (c *Check) run(name string, f func(t *T)) {
	t := &T{C: c, Name: name, R: rand.New(rand.NewSource(mix(c.Seed, name)))}
	if os.Getenv("VERIF_TIME") != "" {
		t0 := time.Now()
		defer func() { c.Say("time %s %.2f at %.2f", name, time.Since(t0).Seconds(), time.Since(c.t0).Seconds()) }()
	}
	defer func() {
		if r := recover(); r != nil {
			c.crash(name, r, string(debug.Stack()))
		}
	}()
	f(t)
}

// crash: a panic of the code under test that no case expected is a violation,
// one of the harness makes the run inconclusive.
func (c *Check) crash(name string, r any, stack string) {
	inRepo := false
	for _, l := range strings.Split(stack, "\n") {
		if strings.Contains(l, "vharness/") {
			break
		}
		if strings.Contains(l, "succinctlabs/gnark-plonky2-verifier") {
			inRepo = true
			break
		}
	}
	if inRepo {
		c.violate(name, fmt.Sprintf("the code panicked: %v\n%s", r, trim(stack, 3000)))
		return
	}
	c.mu.Lock()
	c.broken = append(c.broken, fmt.Sprintf("case %s: %v\n%s", name, r, trim(stack, 3000)))
	c.mu.Unlock()
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (c *Check) violate(name, detail string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if os.Getenv("VERIF_FAILFAST") != "" { // for trying many changes quickly
		c.Say("VIOLATION property=%s failfast case=%s %s", c.ID, name, trim(detail, 300))
		os.Exit(1)
	}
	if len(c.violations) < 200 {
		c.violations = append(c.violations, violation{name, detail})
	}
}

// OK records an evaluated obligation; key identifies the distinct situation.
func (t *T) OK(key string) {
	t.C.mu.Lock()
	t.C.evals++
	t.C.keys[key]++
	t.C.mu.Unlock()
}

// OKn records n evaluations of the same situation.
func (t *T) OKn(key string, n int) {
	t.C.mu.Lock()
	t.C.evals += int64(n)
	t.C.keys[key] += int64(n)
	t.C.mu.Unlock()
}

// Stat adds to a counter of the evidence.
func (c *Check) Stat(name string, n int) {
	c.mu.Lock()
	c.stats[name] += int64(n)
	c.mu.Unlock()
}

// Sample keeps an example observation for the evidence.
func (c *Check) Sample(x any) {
	c.mu.Lock()
	if len(c.samples) < 12 {
		c.samples = append(c.samples, x)
	}
	c.mu.Unlock()
}

// Fail records a violation.
func (t *T) Fail(f string, a ...any) {
	t.nf++
	if t.nf <= 3 {
		t.C.violate(t.Name, fmt.Sprintf(f, a...))
	}
}

// Failed tells whether this case failed.
func (t *T) Failed() bool { return t.nf > 0 }

// Try calls f and returns the panic message.
func Try(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprint(r)
			if p == "" {
				p = "panic"
			}
		}
	}()
	f()
	return ""
}

func (c *Check) known() map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(Dir, "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=<id> case=<name> <what fails>
		if !strings.HasPrefix(l, "finding: property="+c.ID+" case=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+c.ID+" case=")
		name, what, _ := strings.Cut(rest, " ")
		m[name] = what
	}
	return m
}

func (c *Check) finish() int {
	known := c.known()
	var nv []violation
	for _, v := range c.violations {
		if what, ok := known[v.Case]; ok {
			c.Say("KNOWN-FINDING: property=%s %s", c.ID, what)
			delete(known, v.Case)
			continue
		}
		nv = append(nv, v)
	}
	var list []any
	if len(nv) > 0 {
		rd := filepath.Join(Dir, "replays")
		os.MkdirAll(rd, 0o755)
		path := filepath.Join(rd, fmt.Sprintf("%s-%s-%d.json", c.ID, c.Tier, c.Seed))
		b, _ := json.MarshalIndent(map[string]any{
			"property": c.ID, "tier": c.Tier, "seed": c.Seed,
			"replay":     fmt.Sprintf("VERIF_SEED=%d VERIF_CASE='%s' bash /verif/run.sh %s %s", c.Seed, nv[0].Case, c.ID, c.Tier),
			"violations": nv}, "", " ")
		os.WriteFile(path, b, 0o644)
		for i, v := range nv {
			if i == 8 {
				c.Say("  ... and %d more", len(nv)-i)
				break
			}
			c.Say("  %s: %s", v.Case, trim(v.Detail, 400))
			list = append(list, v)
		}
		c.Say("VIOLATION property=%s replay=%s", c.ID, path)
	}
	missing := []string{}
	if c.only == "" {
		for _, n := range c.need {
			ok := false
			for k := range c.keys {
				if strings.HasPrefix(k, n) {
					ok = true
					break
				}
			}
			if !ok {
				missing = append(missing, n)
			}
		}
	}
	groups := map[string]int64{}
	dist := map[string]int64{}
	for k, n := range c.keys {
		g, _, _ := strings.Cut(k, ":")
		groups[g] += n
		dist[g]++
	}
	if len(c.samples) == 0 {
		var ks []string
		for k := range c.keys {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for i := 0; i < len(ks) && i < 8; i++ {
			c.samples = append(c.samples, ks[i*len(ks)/8])
		}
	}
	if list == nil {
		list = []any{}
	}
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.level,
		"coverage": map[string]any{
			"evaluations": c.evals, "distinct_nontrivial": len(c.keys), "rule": c.rule, "samples": c.samples,
			"cases": c.cases, "observed": c.stats, "evaluations_by_group": groups, "distinct_by_group": dist,
		},
		"assumptions": c.assume, "wall_s": time.Since(c.t0).Seconds(), "violations": list,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(Dir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(Dir, "evidence", c.ID+".json"), b, 0o644)
	c.Say("%s %s: %d cases, %d evaluations, %d distinct situations, %.1f s", c.ID, c.Tier, c.cases, c.evals, len(c.keys), time.Since(c.t0).Seconds())
	if len(nv) > 0 {
		return 1
	}
	for i, b := range c.broken {
		if i == 2 {
			break
		}
		c.Say("INCONCLUSIVE: the harness failed: %s", trim(b, 1500))
	}
	if len(c.broken) > 0 {
		return 2
	}
	if len(missing) > 0 {
		c.Say("INCONCLUSIVE: nothing observed for %v", missing)
		return 2
	}
	return 0
}

package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Check decides one property.
type Check struct {
	ID    string
	Level string
	Rule  string
	Run   func(c *Ctx)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Ctx is one run of one check.
type Ctx struct {
	Check    *Check
	Seed     int64
	Tier     string
	Dir      string // /verif
	replay   *caseID
	mu       sync.Mutex
	viol     []violation
	violKeys map[string]int
	evals    atomic.Int64
	obs      map[string]int64
	distinct map[uint64]struct{}
	samples  []any
	known    map[string]string // key -> text
	knownHit map[string]bool
	short    []string
	inflight sync.Map // *T -> start CPU time
	start    time.Time
}

type caseID struct {
	Kind string `json:"kind"`
	Idx  int    `json:"index"`
}

type violation struct {
	Property string `json:"property"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	caseID
	Key    string `json:"key"`
	Detail string `json:"detail"`
}

// T is one case.
type T struct {
	c *Ctx
	caseID
	R       *rand.Rand
	obs     map[string]int64
	dist    []uint64
	failed  bool
	evals   int64
	serial  bool
	started time.Duration
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N scales a case count by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	if quick >= 1000 { // not a number of repetitions
		quick = min(quick*max(1, cheap[c.Check.ID]), thorough)
	}
	return quick
}

// cheap lists the checks whose cases cost little, and how many times their quick number of cases
// can be run on every change.
var cheap = map[string]int{"C02": 2, "C08": 5, "C09": 12, "C10": 6, "C11": 2, "C13": 2, "C14": 4, "C20": 4, "C21": 2, "C22": 2, "C23": 4, "C26": 3}

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

func (c *Ctx) newT(kind string, idx int) *T {
	s1 := hash64(c.Check.ID, kind, fmt.Sprint(c.Seed))
	return &T{c: c, caseID: caseID{kind, idx}, R: rand.New(rand.NewPCG(s1, uint64(idx)*0x9E3779B97F4A7C15+1)), obs: map[string]int64{}}
}

// Cases runs n cases of the given kind on all cores. What a case does depends only on
// the seed, the property, the kind and the index.
func (c *Ctx) Cases(kind string, n int, f func(t *T)) {
	if c.replay != nil {
		if c.replay.Kind == kind && c.replay.Idx < n {
			t := c.newT(kind, c.replay.Idx)
			c.runCase(t, f)
			c.merge(t)
		}
		return
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < min(runtime.GOMAXPROCS(0), n); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				t := c.newT(kind, i)
				c.runCase(t, f)
				c.merge(t)
			}
		}()
	}
	wg.Wait()
}

// Serial runs n cases one after another on one goroutine.
func (c *Ctx) Serial(kind string, n int, f func(t *T)) {
	for i := 0; i < n; i++ {
		if c.replay != nil && (c.replay.Kind != kind || c.replay.Idx != i) {
			continue
		}
		t := c.newT(kind, i)
		t.serial = true
		c.runCase(t, f)
		c.merge(t)
	}
}

// envError is a failure of the surroundings of the check.
type envError struct{ error }

// must is for what only the surroundings of the check can make fail.
func must(err error) {
	if err != nil {
		panic(envError{err})
	}
}

func (c *Ctx) runCase(t *T, f func(t *T)) {
	t.started = cpuTime()
	c.inflight.Store(t, t.started)
	defer func() {
		c.inflight.Delete(t)
		if r := recover(); r != nil {
			if e, ok := r.(envError); ok { // the sandbox failed, not the code under test
				c.mu.Lock()
				c.short = append(c.short, "scratch file: "+e.Error())
				c.mu.Unlock()
				return
			}
			st := string(debug.Stack())
			key := "panic"
			if !strings.Contains(st, "Eyevinn/dash-mpd/") {
				key = "harness-panic"
			}
			t.Failf(key, "panic: %v\n%s", r, clip(st, 3000))
		}
	}()
	t.evals = 1
	f(t)
}

func (c *Ctx) merge(t *T) {
	c.evals.Add(t.evals)
	c.mu.Lock()
	defer c.mu.Unlock()
	for k, v := range t.obs {
		c.obs[k] += v
	}
	if len(c.distinct) < 4_000_000 {
		for _, d := range t.dist {
			c.distinct[d] = struct{}{}
		}
	}
}

// Evals counts additional evaluations made inside one case.
func (t *T) Evals(n int) { t.evals += int64(n) }

// Obs counts an observed event.
func (t *T) Obs(class string) { t.obs[class]++ }

// ObsN counts n observed events.
func (t *T) ObsN(class string, n int) { t.obs[class] += int64(n) }

// Nontrivial records the signature of a non-trivial case; distinct ones are counted.
func (t *T) Nontrivial(parts ...string) { t.dist = append(t.dist, hash64(parts...)) }

// Sample keeps a few written-out cases as evidence.
func (t *T) Sample(format string, a ...any) {
	t.c.mu.Lock()
	defer t.c.mu.Unlock()
	if len(t.c.samples) < 6 {
		t.c.samples = append(t.c.samples, map[string]any{"case": fmt.Sprintf("%s/%d", t.Kind, t.Idx), "what": clip(fmt.Sprintf(format, a...), 1200)})
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("…(%d bytes)", len(s))
	}
	return s
}

// Failf records a violation of the property.
func (t *T) Failf(key, format string, a ...any) {
	t.failed = true
	c := t.c
	c.mu.Lock()
	defer c.mu.Unlock()
	c.violKeys[key]++
	if c.violKeys[key] > 3 || len(c.viol) > 40 {
		return
	}
	c.viol = append(c.viol, violation{c.Check.ID, c.Seed, c.Tier, t.caseID, key, clip(fmt.Sprintf(format, a...), 20000)})
}

// Probe runs a fixed input on which the code under test is known to break the property.
// If it fails and the known-findings file lists the key, that is printed and not a violation.
func (c *Ctx) Probe(key string, f func() string) {
	if c.replay != nil && c.replay.Kind != "probe-"+key {
		return
	}
	t := c.newT("probe-"+key, 0)
	var detail string
	c.runCase(t, func(t *T) { detail = f() })
	c.merge(t)
	if detail == "" {
		return
	}
	if text, ok := c.known[key]; ok {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Check.ID, text)
		c.mu.Lock()
		c.knownHit[key] = true
		c.mu.Unlock()
		return
	}
	t.Failf(key, "%s", detail)
}

// Require makes the run inconclusive if fewer than n events of the class were observed.
func (c *Ctx) Require(class string, n int64) {
	if c.replay != nil {
		return
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.obs[class] < n {
		c.short = append(c.short, fmt.Sprintf("%s: observed %d, need %d", class, c.obs[class], n))
	}
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// Limits of the watchdog. They are in CPU time of this process, not wall-clock time: a case
// that needs more than caseCPU of it while at most GOMAXPROCS goroutines run does not terminate
// in any useful sense (the largest case of any check takes well below one second).
const (
	caseCPU  = 80 * time.Second // per core
	heapHard = 14 << 30
	// A case that waits while this process does nothing at all for so many looks at it, four in a
	// second, waits for something that nobody will do.
	idleLooks = 160
)

// watchdog reports cases that never end or that eat all memory. Both can only be caused by the
// code under test: generated inputs and harness loops are bounded.
func (c *Ctx) watchdog() {
	idle, last := 0, cpuTime()
	for {
		time.Sleep(250 * time.Millisecond)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		now := cpuTime()
		if idle++; now-last > 20*time.Millisecond {
			idle = 0
		}
		last = now
		limit := caseCPU * time.Duration(runtime.GOMAXPROCS(0))
		c.inflight.Range(func(k, v any) bool {
			t := k.(*T)
			key := ""
			limit := limit
			if t.serial {
				limit = 2 * caseCPU // one goroutine and the garbage collector
			}
			if now-v.(time.Duration) > limit {
				key = "no-termination"
			} else if ms.HeapAlloc > heapHard {
				key = "memory"
			} else if idle > idleLooks {
				key = "blocked"
			}
			if key != "" {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				if !strings.Contains(string(buf), "Eyevinn/dash-mpd/") {
					fmt.Println("INCONCLUSIVE: a case did not end, and nothing is inside the code under test")
					os.Exit(2)
				}
				t.Failf(key, "case exceeded the %s limit (heap %d MB)\n%s", key, ms.HeapAlloc>>20, clip(string(buf), 15000))
				os.Exit(c.finish())
			}
			return true
		})
	}
}

// loadKnown reads the known findings of this property: lines "known: property=ID key=KEY text".
func (c *Ctx) loadKnown() {
	c.known = map[string]string{}
	data, err := os.ReadFile(filepath.Join(c.Dir, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return
	}
	for _, line := range strings.Split(string(data), "\n") {
		rest, ok := strings.CutPrefix(line, "known: property="+c.Check.ID+" key=")
		if !ok {
			continue
		}
		key, text, _ := strings.Cut(rest, " ")
		c.known[key] = text
	}
}

// finish writes the evidence, prints the verdict and returns the exit code.
func (c *Ctx) finish() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	out := filepath.Join(c.Dir, "evidence")
	os.MkdirAll(out, 0o755)
	var lines []string
	seen := map[string]bool{}
	if os.Getenv("VERIF_COLD") != "" {
		c.short = nil
	}
	sort.SliceStable(c.viol, func(i, j int) bool { return c.viol[i].Idx < c.viol[j].Idx })
	harness := false
	for _, v := range c.viol {
		if v.Key == "harness-panic" {
			harness = true
		}
		if seen[v.Key] {
			continue
		}
		seen[v.Key] = true
		path := filepath.Join(out, fmt.Sprintf("%s-replay-%s.json", c.Check.ID, sanitize(v.Key)))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, b, 0o644)
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", c.Check.ID, path))
		fmt.Printf("-- %s: %s %s/%d (%d cases)\n%s\n", c.Check.ID, v.Key, v.Kind, v.Idx, c.violKeys[v.Key], strings.ToValidUTF8(clip(v.Detail, 2500), "\uFFFD"))
	}
	if len(c.samples) == 0 {
		c.samples = append(c.samples, "none recorded")
	}
	ev := map[string]any{
		"property": c.Check.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Check.Level,
		"coverage": map[string]any{
			"evaluations": c.evals.Load(), "distinct_nontrivial": len(c.distinct), "rule": c.Check.Rule,
			"samples": c.samples, "observed": c.obs,
		},
		"wall_s": time.Since(c.start).Seconds(), "violations": len(lines),
	}
	if len(c.knownHit) > 0 {
		ev["coverage"].(map[string]any)["known_findings_seen"] = c.knownHit
	}
	if c.replay == nil && os.Getenv("VERIF_COLD") == "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(out, c.Check.ID+".json"), b, 0o644); err != nil {
			fmt.Println("cannot write evidence:", err)
			return 2
		}
	}
	fmt.Printf("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violation kinds, %.1fs\n", c.Check.ID, c.Tier, c.Seed, c.evals.Load(), len(c.distinct), len(lines), time.Since(c.start).Seconds())
	keys := make([]string, 0, len(c.obs))
	for k := range c.obs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("   observed %-40s %d\n", k, c.obs[k])
	}
	if len(lines) > 0 {
		_ = harness
		for _, l := range lines {
			fmt.Println(l)
		}
		return 1
	}
	if len(c.short) > 0 {
		fmt.Println("INCONCLUSIVE: too little was observed:", strings.Join(c.short, "; "))
		return 2
	}
	return 0
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '_' {
			return r
		}
		return '_'
	}, clip(s, 60))
}

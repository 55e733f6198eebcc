package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Violation is one observed breach of a property, with what is needed to see
// it again.
type Violation struct {
	Property string `json:"property"`
	Suite    string `json:"suite"`
	Case     int    `json:"case"`
	Seed     uint64 `json:"seed"`
	Tier     string `json:"tier"`
	Message  string `json:"message"`
	Input    string `json:"input_hex,omitempty"`
	Stack    string `json:"stack,omitempty"`
}

// Ctx is one run of one property's monitors.
type Ctx struct {
	Prop    string
	Tier    string
	Seed    uint64
	Work    string // scratch directory of this run
	Workers int
	Only    string // "suite:case" to replay one case
	Rule    string

	mu               sync.Mutex
	viol             []Violation
	start, firstViol time.Time
	notes            []string
	samples          []any
	counters         map[string]int64
	assume           []string
	suites           map[string]int64
	extra            map[string]any
	exh              bool

	evals   atomic.Int64
	dshards [64]struct {
		mu sync.Mutex
		m  map[uint64]struct{}
	}
	inflight []*atomic.Pointer[flight]
}

type flight struct {
	suite string
	idx   int
	start time.Time
}

// T is one case.
type T struct {
	C     *Ctx
	Suite string
	Idx   int
	*rand.Rand
	input  []byte
	feats  map[string]int64
	worker int
	calls  int
}

type failNow struct{ msg string }

func NewCtx(prop, tier string, seed uint64, work string) *Ctx {
	c := &Ctx{Prop: prop, Tier: tier, Seed: seed, Work: work, Workers: runtime.NumCPU(), start: time.Now(),
		counters: map[string]int64{}, suites: map[string]int64{}, extra: map[string]any{}}
	if c.Workers > 8 {
		c.Workers = 8
	}
	for i := range c.dshards {
		c.dshards[i].m = map[uint64]struct{}{}
	}
	return c
}

// N scales a number of cases by the tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Tier == "thorough" {
		return thorough
	}
	if d := os.Getenv("MON_DIV"); d != "" { // a run as a part of another check
		if k, err := strconv.Atoi(d); err == nil && k > 0 && quick > k {
			return quick / k
		}
	}
	return quick
}

func caseRand(seed uint64, prop, suite string, idx int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s|%s|%d", prop, suite, idx)
	return rand.New(rand.NewPCG(seed, h.Sum64()))
}

func (c *Ctx) stop() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.viol) == 0 {
		return c.Tier != "thorough" && time.Since(c.start) > quickLimit
	}
	return len(c.viol) >= 5 || time.Since(c.firstViol) > 20*time.Second
}

// quickLimit ends a quick run that would otherwise outlast the time it is given;
// the evidence then shows fewer cases.
const quickLimit = 600 * time.Second

// Run runs n cases of a suite on all workers. The cases depend only on the
// seed, the property, the suite's name and the case's number.
func (c *Ctx) Run(suite string, n int, f func(t *T)) { c.run(suite, n, c.Workers, f) }

// RunSeq is Run on a single worker.
func (c *Ctx) RunSeq(suite string, n int, f func(t *T)) { c.run(suite, n, 1, f) }

func (c *Ctx) run(suite string, n, workers int, f func(t *T)) {
	lo := 0
	if c.Only != "" {
		s, i, _ := strings.Cut(c.Only, ":")
		if s != suite {
			return
		}
		fmt.Sscan(i, &lo)
		n = lo + 1
		workers = 1
	}
	if n <= lo {
		return
	}
	if workers > n-lo {
		workers = n - lo
	}
	var next atomic.Int64
	next.Store(int64(lo))
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		slot := &atomic.Pointer[flight]{}
		c.mu.Lock()
		c.inflight = append(c.inflight, slot)
		c.mu.Unlock()
		go func(w int) {
			defer wg.Done()
			feats := map[string]int64{}
			done := int64(0)
			last := time.Now()
			for {
				i := int(next.Add(1) - 1)
				now := time.Now()
				if i >= n || ((i%64 == 0 || now.Sub(last) > time.Millisecond) && c.stop()) {
					break
				}
				last = now
				slot.Store(&flight{suite, i, now})
				t := &T{C: c, Suite: suite, Idx: i, Rand: caseRand(c.Seed, c.Prop, suite, i), feats: feats, worker: w}
				c.one(t, f)
				done++
			}
			slot.Store(nil)
			c.mu.Lock()
			for k, v := range feats {
				c.counters[k] += v
			}
			c.suites[suite] += done
			c.mu.Unlock()
			c.evals.Add(done)
		}(w)
	}
	wg.Wait()
}

func (c *Ctx) one(t *T, f func(t *T)) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		v := Violation{Property: c.Prop, Suite: t.Suite, Case: t.Idx, Seed: c.Seed, Tier: c.Tier}
		if fn, ok := r.(failNow); ok {
			v.Message = fn.msg
		} else {
			v.Message = fmt.Sprintf("panic: %v", r)
			v.Stack = string(debug.Stack())
		}
		if t.input != nil {
			in := t.input
			if len(in) > 1<<16 {
				v.Message += fmt.Sprintf(" [input of %d bytes cut to 65536]", len(in))
				in = in[:1<<16]
			}
			v.Input = hex.EncodeToString(in)
		}
		c.mu.Lock()
		if len(c.viol) == 0 {
			c.firstViol = time.Now()
		}
		c.viol = append(c.viol, v)
		c.mu.Unlock()
	}()
	f(t)
}

// Input remembers the bytes the case is about.
func (t *T) Input(b []byte) { t.input = b }

// Failf reports a violation and ends the case.
func (t *T) Failf(format string, args ...any) {
	m := fmt.Sprintf(format, args...)
	if len(m) > 3000 {
		m = m[:3000] + "..."
	}
	panic(failNow{m})
}

// Count counts an observed event.
func (t *T) Count(ev string)           { t.feats[ev]++ }
func (t *T) CountN(ev string, n int64) { t.feats[ev] += n }

// Distinct records one non-trivial case by its content.
func (t *T) Distinct(parts ...[]byte) {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write(p)
		h.Write([]byte{0xff, 0})
	}
	s := h.Sum64()
	d := &t.C.dshards[s%64]
	d.mu.Lock()
	d.m[s] = struct{}{}
	d.mu.Unlock()
}

// Sample keeps a few cases for the evidence file.
func (t *T) Sample(max int, v any) {
	if t.Idx%7 != 0 && t.Idx > 3 {
		return
	}
	t.C.mu.Lock()
	defer t.C.mu.Unlock()
	n := 0
	for _, s := range t.C.samples {
		if m, ok := s.(map[string]any); ok && m["suite"] == t.Suite {
			n++
		}
	}
	if n < max {
		t.C.samples = append(t.C.samples, map[string]any{"suite": t.Suite, "case": t.Idx, "value": v})
	}
}

func clip(b []byte, n int) string {
	if len(b) <= n {
		return fmt.Sprintf("%q", b)
	}
	return fmt.Sprintf("%q... (%d bytes)", b[:n], len(b))
}

func (c *Ctx) Note(format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.notes = append(c.notes, fmt.Sprintf(format, a...))
}
func (c *Ctx) Assume(s string) { c.assume = append(c.assume, s) }
func (c *Ctx) Extra(k string, v any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.extra[k] = v
}
func (c *Ctx) Add(k string, n int64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.counters[k] += n
}

// Violate reports a violation outside a case.
func (c *Ctx) Violate(suite, format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.viol) == 0 {
		c.firstViol = time.Now()
	}
	c.viol = append(c.viol, Violation{Property: c.Prop, Suite: suite, Case: -1, Seed: c.Seed, Tier: c.Tier, Message: fmt.Sprintf(format, a...)})
}

// Result is what the child process hands to the supervisor.
type Result struct {
	Violations []Violation      `json:"violations"`
	Known      []string         `json:"known"`
	Evals      int64            `json:"evals"`
	Distinct   int64            `json:"distinct"`
	Rule       string           `json:"rule"`
	Samples    []any            `json:"samples"`
	Counters   map[string]int64 `json:"counters"`
	Suites     map[string]int64 `json:"suites"`
	Assume     []string         `json:"assume"`
	Extra      map[string]any   `json:"extra"`
	Exhaustive bool             `json:"exhaustive"`
}

func (c *Ctx) Result() *Result {
	r := &Result{Violations: c.viol, Known: c.notes, Evals: c.evals.Load(), Rule: c.Rule, Samples: c.samples,
		Counters: c.counters, Suites: c.suites, Assume: c.assume, Extra: c.extra, Exhaustive: c.exh}
	for i := range c.dshards {
		r.Distinct += int64(len(c.dshards[i].m))
	}
	sort.Strings(r.Known)
	return r
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		panic(err)
	}
}

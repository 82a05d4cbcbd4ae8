// Model checker for 1pass: exhaustive bounded exploration of the real code, one property per run.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type Violation struct {
	Key    string `json:"key"`    // identifies the failing input, call site or history class
	Detail string `json:"detail"` // what was expected and what happened
	Case   any    `json:"case"`   // the failing case, written out
}

type Ctx struct {
	ID, Tier  string
	Seed      int
	Verif     string // /verif
	Repo      string
	App       string // instrumented application
	AppRace   string
	Scratch   string // data directory of this run
	Thorough  bool
	Level     string
	Rule      string
	Assume    []string
	mu        sync.Mutex
	viol      []Violation
	violKeys  map[string]int
	samples   []any
	states    map[string]struct{}
	evals     int64
	distinct  int64
	trans     int64
	traces    int64
	nstates   int64
	extra     map[string]any
	start     time.Time
	exhausted bool
	verbose   bool
	firstFail time.Time
	knownKeys map[string]string
	budget    time.Duration
}

var NCPU = 8

// Fail records a violation; the first few per key are kept.
func (c *Ctx) Fail(key string, cas any, format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.violKeys[key]++
	if _, ok := c.knownKeys[key]; !ok && c.firstFail.IsZero() {
		c.firstFail = time.Now()
	}
	if c.violKeys[key] <= 3 && len(c.viol) < 60 {
		c.viol = append(c.viol, Violation{key, fmt.Sprintf(format, a...), cas})
	}
}

func (c *Ctx) NFail() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := 0
	for _, v := range c.violKeys {
		n += v
	}
	return n
}

// Stop reports whether there are so many violations that going on is pointless.
func (c *Ctx) Stop() bool {
	c.mu.Lock()
	t := c.firstFail
	c.mu.Unlock()
	return c.NFail() > 200 || !t.IsZero() && time.Since(t) > 30*time.Second
}

func (c *Ctx) Eval(n int)       { atomic.AddInt64(&c.evals, int64(n)) }
func (c *Ctx) Distinct(n int)   { atomic.AddInt64(&c.distinct, int64(n)) }
func (c *Ctx) Trans(n int)      { atomic.AddInt64(&c.trans, int64(n)) }
func (c *Ctx) Trace(n int)      { atomic.AddInt64(&c.traces, int64(n)) }
func (c *Ctx) nstatesAdd(n int) { atomic.AddInt64(&c.nstates, int64(n)) }
func (c *Ctx) State(k string) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.states[k]; ok {
		return false
	}
	c.states[k] = struct{}{}
	return true
}
func (c *Ctx) Sample(x any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.samples) < 8 {
		c.samples = append(c.samples, x)
	}
}
func (c *Ctx) Extra(k string, v any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.extra[k] = v
}
func (c *Ctx) AddExtra(k string, n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	o, _ := c.extra[k].(int)
	c.extra[k] = o + n
}

// Par runs f(worker, i) for all i in [0,n) on NCPU workers.
func (c *Ctx) Par(n int, f func(w, i int)) {
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < NCPU; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || c.Stop() {
					return
				}
				f(w, i)
			}
		}(w)
	}
	wg.Wait()
}

// TimeUp: the time budget of the run is used up (exploration ends, reported as not exhaustive).
func (c *Ctx) TimeUp() bool {
	if time.Since(c.start) > c.budget {
		c.mu.Lock()
		c.exhausted = false
		c.mu.Unlock()
		return true
	}
	return false
}

func (c *Ctx) Dir(name string) string {
	d := filepath.Join(c.Scratch, name)
	must(os.MkdirAll(d, 0755))
	return d
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

var checks = map[string]func(*Ctx){}

func main() {
	if len(os.Args) > 2 && os.Args[1] == "__tty" {
		ttyHelper()
	}
	log.SetOutput(io.Discard)
	debug.SetGCPercent(300)
	id := os.Args[1]
	c := &Ctx{ID: id, Tier: env("VERIF_TIER", "quick"), Verif: env("VERIF_DIR", "/verif"), Repo: env("VERIF_REPO", "/repo"),
		App: os.Getenv("VERIF_APP"), AppRace: os.Getenv("VERIF_APPRACE"), Scratch: os.Getenv("VERIF_SCRATCH"),
		violKeys: map[string]int{}, states: map[string]struct{}{}, extra: map[string]any{}, start: time.Now(), exhausted: true, Level: "model_checking"}
	c.Seed, _ = strconv.Atoi(env("VERIF_SEED", "1"))
	if c.Tier != "thorough" {
		c.Tier = "quick"
	}
	c.verbose = os.Getenv("VERIF_VERBOSE") != ""
	c.Thorough = c.Tier == "thorough"
	c.budget = 400 * time.Second
	if c.Thorough {
		c.budget = 3 * time.Hour
	}
	if n := runtime.NumCPU(); n < NCPU {
		NCPU = n
	}
	c.knownKeys = c.known()
	f := checks[id]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(2)
	}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT)
	go func() { <-sig; killAll(); os.VerifExitHook = nil; os.Exit(2) }()
	os.VerifExitHook = func(code int) { panic(exitCode{code}) }
	go c.watch()
	func() {
		defer func() {
			if r := recover(); r != nil {
				fmt.Fprintf(os.Stderr, "check error: %v\n%s", r, debug.Stack())
				killAll()
				os.VerifExitHook = nil
				os.Exit(2)
			}
		}()
		f(c)
	}()
	os.VerifExitHook = nil
	killAll()
	os.Exit(c.finish())
}

// watch ends the run when nothing has been finished for five minutes: code under test that runs
// in this process does not return (a whole quick run takes less than that).
func (c *Ctx) watch() {
	last, at := int64(-1), time.Now()
	for {
		time.Sleep(5 * time.Second)
		c.mu.Lock()
		n := int64(len(c.states)) + int64(len(c.extra))
		c.mu.Unlock()
		n += atomic.LoadInt64(&c.evals) + atomic.LoadInt64(&c.distinct) + atomic.LoadInt64(&c.trans) + atomic.LoadInt64(&c.traces) + atomic.LoadInt64(&c.nstates)
		if n != last {
			last, at = n, time.Now()
		} else if time.Since(at) > 300*time.Second {
			b := make([]byte, 1<<20)
			b = b[:runtime.Stack(b, true)]
			c.exhausted = false
			c.Fail("hang", obj{"stacks": clip(string(b))}, "no case has ended for five minutes: the code under test does not return")
			os.VerifExitHook = nil
			killAll()
			os.Exit(c.finish())
		}
	}
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

type exitCode struct{ code int }

// guard runs code under test in this process; the result is "" (normal), "exit N" or "panic ...".
func guard(f func()) (out string) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(exitCode); ok {
				out = fmt.Sprintf("exit %d", e.code)
				return
			}
			s := fmt.Sprint(r)
			if strings.HasPrefix(s, "harness:") {
				panic(r)
			}
			out = "panic " + s
		}
	}()
	f()
	return ""
}

func (c *Ctx) known() map[string]string {
	r := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(c.Verif, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=C01 key=some-key description
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(f) == 3 && f[0] == "property="+c.ID && strings.HasPrefix(f[1], "key=") {
			r[f[1][4:]] = f[2]
		}
	}
	return r
}

func (c *Ctx) finish() int {
	known := c.known()
	var real []Violation
	nreal := 0
	seenKnown := map[string]bool{}
	for _, v := range c.viol {
		if d, ok := known[v.Key]; ok {
			if !seenKnown[v.Key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, d)
				seenKnown[v.Key] = true
			}
			continue
		}
		real = append(real, v)
	}
	for k, n := range c.violKeys {
		if _, ok := known[k]; !ok {
			nreal += n
		}
	}
	ev := env("VERIF_EV", filepath.Join(c.Verif, "evidence"))
	os.MkdirAll(ev, 0755)
	cov := map[string]any{}
	for k, v := range c.extra {
		cov[k] = v
	}
	if c.samples == nil {
		c.samples = []any{}
	}
	cov["samples"] = c.samples
	cov["evaluations"] = c.evals
	cov["distinct_nontrivial"] = c.distinct
	cov["rule"] = c.Rule
	cov["exhaustive"] = c.exhausted
	if c.Level == "model_checking" {
		n := c.nstates + int64(len(c.states))
		cov["states"] = n
		cov["transitions"] = c.trans
		cov["traces_validated_against_impl"] = c.traces
	}
	if c.Assume == nil {
		c.Assume = []string{}
	}
	e := map[string]any{"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Level, "coverage": cov,
		"assumptions": c.Assume, "wall_s": time.Since(c.start).Seconds(), "violations": nreal}
	b, err := json.MarshalIndent(e, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(ev, c.ID+".json"), b, 0644))
	rp := filepath.Join(ev, c.ID+".replay.json")
	os.Remove(rp)
	if nreal == 0 {
		fmt.Printf("OK property=%s evaluations=%d distinct=%d states=%d transitions=%d wall=%.1fs\n", c.ID, c.evals, c.distinct, len(c.states)+int(c.nstates), c.trans, time.Since(c.start).Seconds())
		return 0
	}
	b, err = json.MarshalIndent(real, "", " ")
	if err != nil {
		b = []byte(fmt.Sprint(real))
	}
	os.WriteFile(rp, b, 0644)
	keys := []string{}
	for k, n := range c.violKeys {
		keys = append(keys, fmt.Sprintf("%s x%d", k, n))
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Println("  violated:", k)
	}
	for i, v := range real {
		if i >= 6 {
			break
		}
		d := v.Detail
		if len(d) > 1500 {
			d = d[:1500] + "..."
		}
		cs, _ := json.Marshal(v.Case)
		if len(cs) > 800 {
			cs = append(cs[:800], "..."...)
		}
		fmt.Printf("  [%s] %s\n    case: %s\n", v.Key, d, cs)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rp)
	return 1
}

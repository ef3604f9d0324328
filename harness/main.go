// Command harness runs the property-based checks of /verif against the
// goslice packages of /repo (see ../DESIGN.md). It is started by ../check.py.
package main

import (
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Ctx collects what one case exercised.
type Ctx struct {
	nontrivial bool
	labels     []string
	skip       string
}

func (c *Ctx) NonTrivial()                      { c.nontrivial = true }
func (c *Ctx) Label(f string, a ...interface{}) { c.labels = append(c.labels, fmt.Sprintf(f, a...)) }
func (c *Ctx) LabelIf(cond bool, f string) {
	if cond {
		c.labels = append(c.labels, f)
	}
}

type sub struct {
	prop, name       string
	quick, thorough  int
	rule             string
	run              func(t *rapid.T, st *subState)
	replay           func(raw json.RawMessage) error
	cpuBudgetSeconds float64
	robust           bool
}

var subs []*sub

// Register adds one generated check to a property. The case type C must
// round-trip through JSON: replay files are exactly that JSON.
func Register[C any](prop, name string, quick, thorough int, rule string, gen func(*rapid.T) C, check func(*Ctx, C) error, opts ...func(*sub)) {
	s := &sub{prop: prop, name: name, quick: quick, thorough: thorough, rule: rule, cpuBudgetSeconds: 100}
	for _, o := range opts {
		o(s)
	}
	guarded := func(ctx *Ctx, c C) (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
			}
		}()
		return check(ctx, c)
	}
	if s.robust {
		once := guarded
		guarded = func(ctx *Ctx, c C) error {
			err := once(ctx, c)
			if err == nil {
				return nil
			}
			failed := 0
			for i := range tweaks {
				curTweak = &tweaks[i]
				if once(&Ctx{}, c) != nil {
					failed++
				}
				curTweak = nil
			}
			if failed < 2 {
				ctx.Label("fragile: only this exact position of the points fails")
				return nil
			}
			return err
		}
	}
	s.run = func(t *rapid.T, st *subState) {
		c := gen(t)
		raw, err := json.Marshal(c)
		if err != nil {
			panic("harness: case does not marshal: " + err.Error())
		}
		ctx := &Ctx{}
		st.begin(raw)
		err = guarded(ctx, c)
		st.end(ctx, raw, err)
		if err != nil {
			t.Fatalf("%v", err)
		}
	}
	s.replay = func(raw json.RawMessage) error {
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			return fmt.Errorf("replay file does not decode: %w", err)
		}
		return guarded(&Ctx{}, c)
	}
	subs = append(subs, s)
}

// Robust makes a check report a failing case only if it fails as well in at
// least two of six slightly scaled and turned copies. The polygon library used
// by GoSlice returns wrong results for rare constellations of points which
// differ by single micrometres; they vanish with any such change, while a
// mistake in GoSlice's own logic stays.
func Robust(s *sub) { s.robust = true }

// tweak is a similarity applied to all generated geometry.
type tweak struct{ scale, turn float64 }

var tweaks = []tweak{{1.0031, 0}, {0.9967, 0}, {1.0017, 0.0007}, {0.9983, 1.1}, {1.0009, -0.4}, {1.0023, math.Pi / 2}}
var curTweak *tweak

func (t *tweak) apply(x, y int64) (int64, int64) {
	if t == nil {
		return x, y
	}
	sin, cos := math.Sincos(t.turn)
	fx, fy := float64(x)*t.scale, float64(y)*t.scale
	return int64(math.Round(fx*cos - fy*sin)), int64(math.Round(fx*sin + fy*cos))
}

// CPUBudget changes the CPU time after which a case counts as endless. It is
// far above what any case needs (milliseconds), and CPU time does not depend on
// the load of the machine, so reaching it means that the code does not end.
func CPUBudget(cpuSeconds float64) func(*sub) {
	return func(s *sub) { s.cpuBudgetSeconds = cpuSeconds }
}

// trimStack keeps the frames of the code under test.
func trimStack(b []byte) string {
	var out []string
	lines := strings.Split(string(b), "\n")
	for i := 0; i+1 < len(lines) && len(out) < 12; i++ {
		l := lines[i]
		if strings.HasPrefix(l, "github.com/") {
			if k := strings.LastIndex(l, "("); k > 0 {
				l = l[:k]
			}
			out = append(out, l+" "+strings.TrimSpace(lines[i+1]))
		}
	}
	return strings.Join(out, "\n")
}

type subState struct {
	s           *sub
	evals       int
	nontrivial  map[string]struct{}
	labels      map[string]int
	samples     []json.RawMessage
	failed      bool
	lastFail    json.RawMessage
	lastErr     string
	traceFile   string
	mu          sync.Mutex
	cur         json.RawMessage
	curStartCPU float64
	running     int32
}

func (st *subState) begin(raw json.RawMessage) {
	if st.traceFile != "" {
		_ = os.WriteFile(st.traceFile, mustJSON(replayFile{Property: st.s.prop, Check: st.s.name, Case: raw, Error: "process died while running this case"}), 0o644)
	}
	st.mu.Lock()
	st.cur = raw
	st.curStartCPU = cpuSeconds()
	st.mu.Unlock()
	atomic.StoreInt32(&st.running, 1)
}

func (st *subState) end(ctx *Ctx, raw json.RawMessage, err error) {
	atomic.StoreInt32(&st.running, 0)
	if err != nil {
		st.failed = true
		st.lastFail = raw
		st.lastErr = err.Error()
		return
	}
	if st.failed { // shrinking: not part of the exploration
		return
	}
	st.evals++
	for _, l := range ctx.labels {
		st.labels[l]++
	}
	if ctx.nontrivial {
		h := sha256.Sum256(raw)
		key := fmt.Sprintf("%x", h[:8])
		if _, ok := st.nontrivial[key]; !ok {
			st.nontrivial[key] = struct{}{}
			if len(st.samples) < 3 && len(raw) < 4000 {
				st.samples = append(st.samples, raw)
			}
		}
	}
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	tv := func(t syscall.Timeval) float64 { return float64(t.Sec) + float64(t.Usec)/1e6 }
	return tv(ru.Utime) + tv(ru.Stime)
}

// fakeTB lets rapid run outside "go test".
type fakeTB struct {
	name   string
	failed bool
	log    []string
}

func (f *fakeTB) Helper()      {}
func (f *fakeTB) Name() string { return f.name }
func (f *fakeTB) Logf(format string, args ...any) {
	f.log = append(f.log, fmt.Sprintf(format, args...))
}
func (f *fakeTB) Log(args ...any)                   { f.log = append(f.log, fmt.Sprint(args...)) }
func (f *fakeTB) Skipf(format string, args ...any)  { f.Logf(format, args...); f.SkipNow() }
func (f *fakeTB) Skip(args ...any)                  { f.Log(args...); f.SkipNow() }
func (f *fakeTB) SkipNow()                          { runtime.Goexit() }
func (f *fakeTB) Errorf(format string, args ...any) { f.Logf(format, args...); f.failed = true }
func (f *fakeTB) Error(args ...any)                 { f.Log(args...); f.failed = true }
func (f *fakeTB) Fatalf(format string, args ...any) { f.Logf(format, args...); f.FailNow() }
func (f *fakeTB) Fatal(args ...any)                 { f.Log(args...); f.FailNow() }
func (f *fakeTB) FailNow()                          { f.failed = true; runtime.Goexit() }
func (f *fakeTB) Fail()                             { f.failed = true }
func (f *fakeTB) Failed() bool                      { return f.failed }

type replayFile struct {
	Property string          `json:"property"`
	Check    string          `json:"check"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
}

type subResult struct {
	Name       string            `json:"name"`
	Rule       string            `json:"rule"`
	Evals      int               `json:"evals"`
	NonTrivial []string          `json:"nontrivial"`
	Labels     map[string]int    `json:"labels"`
	Samples    []json.RawMessage `json:"samples"`
	Seconds    float64           `json:"seconds"`
	Failure    *replayFile       `json:"failure,omitempty"`
	HarnessErr string            `json:"harness_error,omitempty"`
}

func mustJSON(v interface{}) []byte {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	return b
}

const (
	exitViolation = 1
)

var scratchDir, cliPath string

func main() {
	testing.Init() // rapid asks testing.Short
	prop := flag.String("prop", "", "property id")
	only := flag.String("only", "", "run only this sub-check")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	shard := flag.Int("shard", 0, "shard number")
	shards := flag.Int("shards", 1, "number of shards")
	out := flag.String("out", "", "result file")
	trace := flag.String("trace", "", "write the running case to this file before running it")
	replay := flag.String("replay", "", "run the case in this replay file and nothing else")
	list := flag.Bool("list", false, "list properties")
	shrink := flag.Duration("shrink", 20*time.Second, "shrink time")
	scale := flag.Float64("scale", 1, "multiply case counts")
	cpu := flag.Float64("cpu", 0, "CPU seconds per case, if not the check's own limit")
	race := flag.Bool("race", false, "run only the sub-checks for the race detector build")
	flag.StringVar(&cliPath, "cli", "", "the built goslice command")
	flag.StringVar(&scratchDir, "scratch", os.TempDir(), "scratch directory")
	flag.Parse()
	debug.SetMaxStack(256 << 20)

	if *list {
		for _, s := range subs {
			fmt.Printf("%s %s quick=%d thorough=%d\n", s.prop, s.name, s.quick, s.thorough)
		}
		return
	}
	if *replay != "" {
		os.Exit(doReplay(*replay))
	}

	_ = flag.Set("rapid.nofailfile", "true")
	_ = flag.Set("rapid.shrinktime", shrink.String())

	var results []subResult
	code := 0
	found := false
	for _, s := range subs {
		if s.prop != *prop || (*only != "" && s.name != *only) || strings.HasPrefix(s.name, "race-") != *race {
			continue
		}
		found = true
		n := s.quick
		if *tier == "thorough" {
			n = s.thorough
		}
		n = int(float64(n) * *scale)
		// split over the shards
		if *cpu > 0 {
			s.cpuBudgetSeconds = *cpu
		}
		per := n / *shards
		if *shard < n%*shards {
			per++
		}
		res := runSub(s, per, *seed, *shard, *trace, *out, results)
		results = append(results, res)
		if res.HarnessErr != "" {
			code = 2
		}
		if res.Failure != nil {
			code = exitViolation
			break
		}
	}
	if !found {
		fmt.Fprintln(os.Stderr, "no such property", *prop)
		os.Exit(2)
	}
	writeOut(*out, results)
	os.Exit(code)
}

func writeOut(out string, results []subResult) {
	b := mustJSON(results)
	if out == "" {
		for i := range results {
			r := &results[i]
			fmt.Printf("%s: %d evals, %d distinct non-trivial, %.1fs\n", r.Name, r.Evals, len(r.NonTrivial), r.Seconds)
			var ks []string
			for k := range r.Labels {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				fmt.Printf("   %-40s %d\n", k, r.Labels[k])
			}
			if r.HarnessErr != "" {
				fmt.Println("   HARNESS:", r.HarnessErr)
			}
			if r.Failure != nil {
				fmt.Printf("   FAIL: %s\n   CASE: %s\n", r.Failure.Error, r.Failure.Case)
			}
		}
		return
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func runSub(s *sub, n int, seed uint64, shard int, trace, out string, before []subResult) subResult {
	st := &subState{s: s, nontrivial: map[string]struct{}{}, labels: map[string]int{}, traceFile: trace}
	start := time.Now()
	mk := func() subResult {
		r := subResult{Name: s.name, Rule: s.rule, Evals: st.evals, Labels: st.labels, Samples: st.samples, Seconds: time.Since(start).Seconds()}
		for k := range st.nontrivial {
			r.NonTrivial = append(r.NonTrivial, k)
		}
		sort.Strings(r.NonTrivial)
		return r
	}
	if n <= 0 {
		return mk()
	}
	h := sha256.Sum256([]byte(s.prop + "/" + s.name))
	base := (seed+1)*1_000_000_007 + uint64(shard)*15_485_863_000 + uint64(h[0])<<40 + uint64(h[1])<<48
	_ = flag.Set("rapid.seed", fmt.Sprint(base|1))
	_ = flag.Set("rapid.checks", fmt.Sprint(n))

	stop := make(chan struct{})
	go func() { // watchdog for runaway cases
		tick := time.NewTicker(500 * time.Millisecond)
		defer tick.Stop()
		for {
			select {
			case <-stop:
				return
			case <-tick.C:
			}
			if atomic.LoadInt32(&st.running) == 0 {
				continue
			}
			st.mu.Lock()
			used := cpuSeconds() - st.curStartCPU
			cur := st.cur
			st.mu.Unlock()
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if used > s.cpuBudgetSeconds || ms.HeapAlloc > 3<<30 {
				r := subResult{Name: s.name, Rule: s.rule}
				msg := fmt.Sprintf("the case did not finish: %.0f CPU seconds used, %d MiB heap (budget: %.0f CPU seconds, 3072 MiB)", used, ms.HeapAlloc>>20, s.cpuBudgetSeconds)
				r.Failure = &replayFile{Property: s.prop, Check: s.name, Error: msg, Case: cur}
				writeOut(out, append(before, r))
				os.Exit(exitViolation)
			}
		}
	}()

	tb := &fakeTB{name: s.prop + "_" + s.name}
	done := make(chan struct{})
	go func() {
		defer close(done)
		rapid.Check(tb, func(t *rapid.T) { s.run(t, st) })
	}()
	<-done
	close(stop)
	r := mk()
	if tb.failed {
		if st.lastFail != nil {
			r.Failure = &replayFile{Property: s.prop, Check: s.name, Error: st.lastErr, Case: st.lastFail}
		} else {
			r.HarnessErr = strings.Join(tb.log, "\n")
		}
	}
	return r
}

func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, s := range subs {
		if s.prop == rf.Property && s.name == rf.Check {
			if err := s.replay(rf.Case); err != nil {
				fmt.Printf("%s/%s: %v\n", rf.Property, rf.Check, err)
				abs, _ := filepath.Abs(path)
				fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, abs)
				return exitViolation
			}
			fmt.Printf("%s/%s: the case holds\n", rf.Property, rf.Check)
			return 0
		}
	}
	fmt.Fprintln(os.Stderr, "no such check:", rf.Property, rf.Check)
	return 2
}

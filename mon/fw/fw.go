// Package fw is the monitor framework: deterministic case generation, a
// sharded worker pool with crash/hang/race attribution, evidence and verdicts.
package fw

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Prop is one monitored property.
type Prop struct {
	ID       string
	Race     bool // build and run under the Go race detector
	Workers  int  // 0 = one per core
	Quick    int  // number of generated cases
	Thorough int
	Case     func(c *Ctx)
	Fixed    []Fixed // fixed histories, run before the generated ones
	Rule     string
	Assume   []string
	Level    string           // default exploration
	Need     map[string]int64 // minimal event counts in a quick run; fewer is inconclusive
	HangTick int              // 10 ms ticks before a case is called stuck (default 3000)
	Setup    func()           // once per worker process
	Exhaust  bool             // the fixed part enumerates a finite space completely
}

// Fixed is a named deterministic scenario.
type Fixed struct {
	Name string
	Run  func(c *Ctx)
}

// Props is the registry.
var Props = map[string]*Prop{}

// Register adds a property.
func Register(p *Prop) {
	if Props[p.ID] != nil {
		panic("dup " + p.ID)
	}
	Props[p.ID] = p
}

// Failure is one observed violation.
type Failure struct {
	Case  int    `json:"case"`
	Fixed string `json:"fixed,omitempty"`
	Msg   string `json:"msg"`
	Trace string `json:"trace,omitempty"`
}

// Result is what a worker reports.
type Result struct {
	Cases    int
	Counts   map[string]int64
	Distinct []uint64
	Samples  []string
	Fails    []Failure
}

// Ctx is handed to each case.
type Ctx struct {
	R      *rand.Rand
	N      int
	Tier   string
	Mode   string // how a shared generator is to use what it builds
	Beside bool   // other activities run in this process at the same time
	name   string
	mu     sync.Mutex
	tr     []string
	w      *worker
}

type abort struct{}

type worker struct {
	mu       sync.Mutex
	counts   map[string]int64
	distinct map[uint64]struct{}
	samples  []string
	fails    []Failure
	cases    int
}

// Count adds n to a named event counter.
func (c *Ctx) Count(name string, n int) {
	c.w.mu.Lock()
	c.w.counts[name] += int64(n)
	c.w.mu.Unlock()
}

// Seen records a distinct non-trivial case or state.
func (c *Ctx) Seen(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v|", p)
	}
	c.w.mu.Lock()
	if len(c.w.distinct) < 400000 {
		c.w.distinct[h.Sum64()] = struct{}{}
	}
	c.w.mu.Unlock()
}

// Tracef appends to the case's step log (printed on violation).
func (c *Ctx) Tracef(f string, a ...any) {
	c.mu.Lock()
	if len(c.tr) < 5000 {
		c.tr = append(c.tr, fmt.Sprintf(f, a...))
	}
	c.mu.Unlock()
}

// TraceText returns the step log.
func (c *Ctx) TraceText() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return strings.Join(c.tr, "\n")
}

// Sample offers an actual case for the evidence file.
func (c *Ctx) Sample(s string) {
	c.w.mu.Lock()
	if len(c.w.samples) < 2 {
		if len(s) > 1200 {
			s = s[:1200] + "…"
		}
		c.w.samples = append(c.w.samples, strings.ToValidUTF8(s, "?"))
	}
	c.w.mu.Unlock()
}

// Failf records a violation and aborts the case. Only from the case goroutine.
func (c *Ctx) Failf(f string, a ...any) {
	c.Notef(f, a...)
	panic(abort{})
}

// Notef records a violation without aborting (callable from any goroutine).
func (c *Ctx) Notef(f string, a ...any) {
	msg := fmt.Sprintf(f, a...)
	c.w.mu.Lock()
	if len(c.w.fails) < 20 {
		c.w.fails = append(c.w.fails, Failure{Case: c.N, Fixed: c.name, Msg: msg, Trace: c.TraceText()})
	}
	c.w.mu.Unlock()
}

// Failed tells whether this worker noted any violation yet.
func (c *Ctx) Failed() bool {
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	return len(c.w.fails) > 0
}

// Check fails unless ok.
func (c *Ctx) Check(ok bool, f string, a ...any) {
	if !ok {
		c.Failf(f, a...)
	}
}

// Quiet returns a context of its own for one of several activities: its own
// choices, its own step log; what it counts is not counted.
func (c *Ctx) Quiet() *Ctx {
	return &Ctx{Beside: true, R: rand.New(rand.NewPCG(c.R.Uint64(), c.R.Uint64())), N: c.N, Tier: c.Tier, name: c.name, w: &worker{counts: map[string]int64{}, distinct: map[uint64]struct{}{}}}
}

// Rare tells whether this case is one of the big ones, one in n; never when
// other activities run at the same time.
func (c *Ctx) Rare(n int) bool { return c.R.IntN(n) == 0 && !c.Beside }

// Together runs the activities at the same time, each with its own context,
// and aborts when one of them failed.
func (c *Ctx) Together(names []string, fs []func(*Ctx)) {
	cs := make([]*Ctx, len(fs))
	for i := range cs {
		cs[i] = c.Quiet()
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(abort); !ok {
						cs[i].Notef("panic: %v\n%s", r, trimStack(string(debug.Stack())))
					}
				}
			}()
			<-start
			f(cs[i])
		}()
	}
	close(start)
	wg.Wait()
	for i, k := range cs {
		for _, f := range k.w.fails {
			c.Tracef("%s", f.Trace)
			c.Failf("%s beside %s: %s", names[i], strings.Join(names, ", "), f.Msg)
		}
	}
}

// Wait polls cond on 1 ms logical ticks; false after max ticks.
func Wait(max int, cond func() bool) bool {
	for i := 0; i < max; i++ {
		if cond() {
			return true
		}
		if i < 50 {
			runtime.Gosched()
			time.Sleep(20 * time.Microsecond)
			continue
		}
		time.Sleep(time.Millisecond)
	}
	return cond()
}

// Stacks returns all goroutine stacks.
func Stacks() string {
	b := make([]byte, 1<<20)
	return string(b[:runtime.Stack(b, true)])
}

func hash(s string) uint64 { h := fnv.New64a(); h.Write([]byte(s)); return h.Sum64() }

func newRand(seed int64, id string, n int) *rand.Rand {
	return rand.New(rand.NewPCG(uint64(seed)*0x9e3779b97f4a7c15+hash(id), uint64(n)*0xbf58476d1ce4e5b9+0x1234567))
}

func runOne(p *Prop, w *worker, seed int64, tier string, n int, fx *Fixed) {
	c := &Ctx{N: n, Tier: tier, w: w}
	f := p.Case
	if fx != nil {
		c.name = fx.Name
		f = fx.Run
		c.R = newRand(seed, p.ID+"/"+fx.Name, 0)
	} else {
		c.R = newRand(seed, p.ID, n)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abort); ok {
					return
				}
				c.Notef("panic: %v\n%s", r, trimStack(string(debug.Stack())))
			}
		}()
		f(c)
	}()
	w.mu.Lock()
	w.cases++
	w.mu.Unlock()
}

func trimStack(s string) string {
	if len(s) > 5000 {
		s = s[:5000]
	}
	return s
}

// Worker runs cases lo..hi-1; indexes below len(Fixed) are the fixed ones.
func Worker(id string, seed int64, tier string, lo, hi int, out string, hangMul int) int {
	p := Props[id]
	debug.SetMaxStack(128 << 20)
	w := &worker{counts: map[string]int64{}, distinct: map[uint64]struct{}{}}
	cur, err := os.OpenFile(out+".cur", os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 98
	}
	// Keep the real stderr for reports: properties may swap os.Stderr/os.Stdout.
	errf := os.Stderr
	var ticks atomic.Int64
	limit := int64(p.HangTick)
	if limit == 0 {
		limit = 3000
	}
	limit *= int64(hangMul)
	go func() {
		for {
			time.Sleep(10 * time.Millisecond)
			if ticks.Add(1) > limit {
				fmt.Fprintf(errf, "MONITOR: case did not finish within %d ticks\n%s\n", limit, Stacks())
				os.Exit(97)
			}
		}
	}()
	if p.Setup != nil {
		p.Setup()
	}
	for i := lo; i < hi; i++ {
		ticks.Store(0)
		cur.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
		if i < len(p.Fixed) {
			runOne(p, w, seed, tier, i, &p.Fixed[i])
		} else {
			runOne(p, w, seed, tier, i, nil)
		}
		ticks.Store(0)
		w.mu.Lock()
		stop := false
		for _, f := range w.fails {
			if f.Fixed == "" {
				stop = true
			}
		}
		w.mu.Unlock()
		if stop {
			break
		}
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	res := Result{Cases: w.cases, Counts: w.counts, Samples: w.samples, Fails: w.fails}
	for h := range w.distinct {
		res.Distinct = append(res.Distinct, h)
	}
	sort.Slice(res.Distinct, func(i, j int) bool { return res.Distinct[i] < res.Distinct[j] })
	b, _ := json.Marshal(res)
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Fprintln(errf, err)
		return 98
	}
	return 0
}

// Replay runs single cases in this process and prints what failed.
func Replay(id string, args []string) int {
	p := Props[id]
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		fmt.Sscan(s, &seed)
	}
	w := &worker{counts: map[string]int64{}, distinct: map[uint64]struct{}{}}
	out := os.Stdout
	if p.Setup != nil {
		p.Setup()
	}
	lo, hi := 0, len(p.Fixed)
	if len(args) > 0 {
		fmt.Sscan(args[0], &lo)
		hi = lo + 1
	}
	if len(args) > 1 {
		fmt.Sscan(args[1], &hi)
	}
	for i := lo; i < hi; i++ {
		if i < len(p.Fixed) {
			runOne(p, w, seed, "quick", i, &p.Fixed[i])
		} else {
			runOne(p, w, seed, "quick", i, nil)
		}
	}
	for _, f := range w.fails {
		fmt.Fprintf(out, "FAIL case %d %s: %s\n%s\n---\n", f.Case, f.Fixed, f.Msg, f.Trace)
	}
	fmt.Fprintln(out, w.cases, "cases", len(w.fails), "failures", w.counts)
	if len(w.fails) > 0 {
		return 1
	}
	return 0
}

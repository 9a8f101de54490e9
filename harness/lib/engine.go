// Package lib is the common part of the checks: the case engine, the storage environments, the operation vocabulary,
// the sequential reference model and the histories that compare the two.
package lib

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
	_ "time/tzdata"

	"verif.local/h/fakeredis"
	"verif.local/h/vsched"
)

// R is one run of one check (one shard of it).
type R struct {
	T        *testing.T
	Prop     string
	Thorough bool
	Seed     uint64
	Shard    int
	Shards   int
	Dir      string // scratch directory of this shard
	out      string
	only     string
	onlyIdx  int

	mu       sync.Mutex
	counters map[string]int64
	distinct map[uint64]struct{}
	samples  []string
	caseName string
	caseIdx  int
	cur      *C
	dummy    int
}

// zones are the local time zones of the shards. Bubbles begin in the year 2000; in some zones the clock is changed by half an hour.
var zones = func() (l []*time.Location) {
	for _, name := range []string{"UTC", "America/New_York", "Australia/Lord_Howe", "Asia/Kathmandu", "America/Sao_Paulo", "Europe/London", "Pacific/Kiritimati", "Africa/Casablanca"} {
		z, e := time.LoadLocation(name)
		if e != nil {
			panic(e)
		}
		l = append(l, z)
	}
	return
}()

// Main runs the check named by VH_PROP.
func Main(t *testing.T, checks map[string]func(*R)) {
	prop := os.Getenv("VH_PROP")
	f := checks[prop]
	if f == nil {
		t.Skip("VH_PROP names no check")
	}
	debug.SetPanicOnFault(true)
	r := &R{T: t, Prop: prop, Thorough: os.Getenv("VH_TIER") == "thorough", Shards: 1, Dir: os.Getenv("VH_DIR"),
		out: os.Getenv("VH_OUT"), counters: map[string]int64{}, distinct: map[uint64]struct{}{}, onlyIdx: -1}
	s, _ := strconv.ParseInt(os.Getenv("VH_SEED"), 10, 64)
	r.Seed = uint64(s)
	fmt.Sscanf(os.Getenv("VH_SHARD"), "%d/%d", &r.Shard, &r.Shards)
	if o := os.Getenv("VH_ONLY"); o != "" {
		i := strings.LastIndex(o, ":")
		r.only = o[:i]
		r.onlyIdx, _ = strconv.Atoi(o[i+1:])
		r.Shard = r.onlyIdx % r.Shards // the one it ran in
	}
	time.Local = zones[r.Shard%len(zones)]
	f(r)
	r.finish("")
}

// N chooses the number of cases by tier.
func (r *R) N(quick, thorough int) int {
	n := quick
	if r.Thorough {
		n = thorough
	}
	if s := os.Getenv("VH_SCALE"); s != "" {
		f, _ := strconv.ParseFloat(s, 64)
		if f > 0 {
			n = max(1, int(float64(n)*f))
		}
	}
	return n
}

// Add counts something that was observed.
func (r *R) Add(name string, n int) {
	r.mu.Lock()
	r.counters[name] += int64(n)
	r.mu.Unlock()
}

// C is one case: a program of operations determined by (seed, property, name, index).
type C struct {
	*R
	Name    string
	I       int
	Rng     *rand.Rand
	tmu     sync.Mutex
	trace   []string
	sig     uint64
	skipped bool
	virtual bool
	noLeak  bool
	// cleanup runs when the case ends
	cleanup []func()
	logCap  int
}

func (r *R) newCase(name string, i int) *C {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", r.Seed, r.Prop, name, i)
	s := h.Sum64()
	return &C{R: r, Name: name, I: i, Rng: rand.New(rand.NewPCG(s, s^0x5851f42d4c957f2d)), sig: 14695981039346656037, logCap: 400}
}

func (r *R) mine(name string, i int) bool {
	if r.only != "" {
		return r.only == name && r.onlyIdx == i
	}
	if o := os.Getenv("VH_CASES"); o != "" && o != name { // development: one group of cases alone
		return false
	}
	return i%r.Shards == r.Shard
}

func (r *R) begin(c *C) {
	r.mu.Lock()
	r.cur = c
	r.mu.Unlock()
}

func (r *R) end(c *C) {
	for i := len(c.cleanup) - 1; i >= 0; i-- {
		c.cleanup[i]()
	}
	c.cleanup = nil
	r.mu.Lock()
	defer r.mu.Unlock()
	if c.skipped {
		r.counters["cases_skipped"]++
		return
	}
	r.counters["evaluations"]++
	r.counters["cases_"+c.Name]++
	r.distinct[c.sig] = struct{}{}
	if len(r.samples) < 3 && r.counters["cases_"+c.Name] == 2 {
		t := c.trace
		if len(t) > 14 {
			t = t[:14]
		}
		r.samples = append(r.samples, fmt.Sprintf("%s:%d: %s", c.Name, c.I, strings.Join(t, " | ")))
	}
}

// Cases runs n cases on the real clock.
func (r *R) Cases(name string, n int, f func(c *C)) {
	for i := 0; i < n; i++ {
		if !r.mine(name, i) {
			continue
		}
		c := r.newCase(name, i)
		r.begin(c)
		vsched.Configure(vsched.Off, 0, 1, c.Rng.Uint64())
		f(c)
		r.end(c)
	}
}

// Bubble runs n cases, each on a virtual clock of its own.
func (r *R) Bubble(name string, n int, f func(c *C)) {
	for i := 0; i < n; i++ {
		if !r.mine(name, i) {
			continue
		}
		c := r.newCase(name, i)
		c.virtual = true
		r.begin(c)
		vsched.Configure(vsched.Off, 0, 1, c.Rng.Uint64())
		r.bubble(c, f)
		vsched.Configure(vsched.Off, 0, 1, 1)
		r.end(c)
	}
}

func (r *R) bubble(c *C, f func(c *C)) {
	defer func() {
		if e := recover(); e != nil {
			s := fmt.Sprint(e)
			if strings.Contains(s, "deadlock") {
				if c.noLeak {
					c.Failf("goroutines of the library are left after everything was closed: %s\n%s", s, goroutines())
				}
				r.Add("leaked_bubbles", 1)
				return
			}
			panic(e)
		}
	}()
	defer vsched.Limit(0, nil)
	synctest.Test(r.T, func(t *testing.T) {
		defer func() {
			if e := recover(); e != nil {
				c.bodyPanic(e)
			}
		}()
		defer vsched.Configure(vsched.Off, 0, 1, 1)
		c.idle()
		c.someday()
		f(c)
		c.Calm()
		time.Sleep(100 * time.Millisecond) // what sleeps at a yield point ends
	})
}

// someday lets the case begin at other times than midnight of the first of January 2000: tomorrow, in decades, about the
// time when the clocks of the local zone are changed.
func (c *C) someday() {
	day := time.Duration(c.Intn(24*3600*1000)) * time.Millisecond
	switch c.Intn(5) {
	case 0:
		time.Sleep(day)
	case 1:
		time.Sleep(time.Duration(c.Intn(60*365))*24*time.Hour + day)
	case 2:
		_, change := time.Now().AddDate(c.Intn(20), c.Intn(12), 0).ZoneBounds()
		if d := time.Until(change) + day/6 - 3*time.Hour; !change.IsZero() && d > 0 {
			time.Sleep(d)
		}
	}
}

func goroutines() string {
	b := make([]byte, 1<<18)
	b = b[:runtime.Stack(b, true)]
	var out []string
	for _, g := range strings.Split(string(b), "\n\n") {
		if strings.Contains(g, "powerpuffpenguin/sessionid") || strings.Contains(g, "boltdb/bolt") {
			out = append(out, g)
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, "\n\n")
}

// Cleanup runs f when the case is over.
func (c *C) Cleanup(f func()) { c.cleanup = append(c.cleanup, f) }

// NoLeak makes goroutines left at the end of the case a violation.
func (c *C) NoLeak() { c.noLeak = true }

// Skip marks the case as one that decided nothing.
func (c *C) Skip() { c.skipped = true }

// Logf records a step of the case for the witness.
func (c *C) Logf(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	c.tmu.Lock()
	if len(c.trace) >= c.logCap {
		copy(c.trace[20:], c.trace[21:])
		c.trace = c.trace[:len(c.trace)-1]
	}
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	c.trace = append(c.trace, s)
	c.tmu.Unlock()
}

// Sig adds to the signature by which distinct cases are counted.
func (c *C) Sig(a ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, a...)
	c.tmu.Lock()
	c.sig = (c.sig ^ h.Sum64()) * 1099511628211
	c.tmu.Unlock()
}

type failure struct {
	Property string   `json:"property"`
	Case     string   `json:"case"`
	Index    int      `json:"index"`
	Seed     uint64   `json:"seed"`
	Tier     string   `json:"tier"`
	Message  string   `json:"message"`
	Finding  string   `json:"finding,omitempty"`
	Trace    []string `json:"trace"`
}

var failing sync.Mutex

// Failf reports a violation and ends the process.
func (c *C) Failf(format string, a ...any) {
	c.gap()
	failing.Lock() // and never unlocked: the first one is reported
	msg := fmt.Sprintf(format, a...)
	c.tmu.Lock()
	tr := append([]string(nil), c.trace...)
	c.tmu.Unlock()
	tier := "quick"
	if c.Thorough {
		tier = "thorough"
	}
	b, _ := json.MarshalIndent(failure{Property: c.Prop, Case: c.Name, Index: c.I, Seed: c.Seed, Tier: tier, Message: msg, Trace: tr}, "", " ")
	os.WriteFile(c.out+".fail.new", b, 0o644)
	os.Rename(c.out+".fail.new", c.out+".fail")
	fmt.Fprintf(os.Stderr, "FAIL %s %s:%d: %s\n", c.Prop, c.Name, c.I, msg)
	os.Exit(3)
}

// gap gives up if the library used a redis command that the stand-in does not implement.
func (c *C) gap() {
	if g := fakeredis.Gap.Load(); g != nil {
		c.Inconclusive("the in-memory redis server does not know the command %s", *g)
	}
}

// Inconclusive ends the process without a verdict.
func (r *R) Inconclusive(format string, a ...any) {
	r.finish(fmt.Sprintf(format, a...))
	os.Exit(4)
}

func (r *R) finish(inconclusive string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	pts, total := vsched.Covered()
	r.counters["yield_points_passed"] += int64(total)
	m := map[string]any{"counters": r.counters, "samples": r.samples, "distinct": len(r.distinct), "points_covered": pts, "inconclusive": inconclusive}
	b, _ := json.Marshal(m)
	os.WriteFile(r.out, b, 0o644)
	var sb strings.Builder
	keys := make([]uint64, 0, len(r.distinct))
	for k := range r.distinct {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	for _, k := range keys {
		fmt.Fprintf(&sb, "%x\n", k)
	}
	os.WriteFile(r.out+".distinct", []byte(sb.String()), 0o644)
}

// bodyPanic: a panic outside Do is a violation if it came from the code under test, else a fault of the harness.
func (c *C) bodyPanic(e any) {
	if s := stackOf(); !strings.Contains(s, "powerpuffpenguin/sessionid.") && !strings.Contains(s, "powerpuffpenguin/sessionid/") {
		fmt.Fprintln(os.Stderr, s)
		c.Inconclusive("the harness panicked in %s:%d: %v\n%s", c.Name, c.I, e, s)
	}
	c.panicked("case body", e)
}

func (c *C) panicked(where string, e any) {
	c.Failf("panic in %s: %v\n%s", where, e, stackOf())
}

func stackOf() string {
	b := make([]byte, 1<<16)
	s := string(b[:runtime.Stack(b, false)])
	if len(s) > 5000 {
		s = s[:5000]
	}
	return s
}

// The bound on the steps one call may take together with the work beside it, in yield points.
const stepBound = 20_000_000

// stuckAfter is the virtual time after which a call counts as blocked for good: the clock only advances while nothing
// can run, so anything the call waits for has had its turn.
const stuckAfter = 1000 * time.Hour

// Do performs one call of the code under test: a panic, an unbounded loop, or blocking for good is a violation.
func (c *C) Do(name string, f func()) {
	if !c.virtual {
		defer func() {
			if e := recover(); e != nil {
				c.panicked(name, e)
			}
		}()
		f()
		return
	}
	done := make(chan struct{})
	vsched.Limit(stepBound, func() { c.Failf("%s does not finish: more than %d steps\n%s", name, stepBound, goroutines()) })
	go func() {
		defer func() {
			if e := recover(); e != nil {
				c.panicked(name, e)
			}
			close(done)
		}()
		f()
	}()
	c.wait(name, done)
	c.idle()
}

// The bound on the steps of background work between two calls, in which time may pass.
const idleBound = 400_000_000

func (c *C) idle() {
	vsched.Limit(idleBound, func() {
		c.Failf("work in the background does not come to rest: more than %d steps\n%s", idleBound, goroutines())
	})
}

func (c *C) wait(name string, done chan struct{}) {
	t := time.NewTimer(stuckAfter)
	defer t.Stop()
	select {
	case <-done:
	case <-t.C:
		c.Failf("%s does not return: everything is blocked\n%s", name, goroutines())
	}
}

// Par runs the functions concurrently and waits for all.
func (c *C) Par(name string, fs ...func()) {
	var wg sync.WaitGroup
	if c.virtual {
		vsched.Limit(stepBound, func() { c.Failf("%s do not finish: more than %d steps\n%s", name, stepBound, goroutines()) })
	}
	for _, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					c.panicked(name, e)
				}
			}()
			f()
		}()
	}
	if !c.virtual {
		wg.Wait()
		return
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	c.wait(name, done)
	c.idle()
}

// Watchdog makes it a violation that the function it returns is not called in time; for the real clock.
func (c *C) Watchdog(name string) func() {
	t := time.AfterFunc(100*time.Second, func() { c.Failf("%s: does not return\n%s", name, goroutines()) })
	return func() { t.Stop() }
}

// Settle lets all background work that can run, run.
func (c *C) Settle() {
	if c.virtual {
		vsched.Limit(stepBound, func() {
			c.Failf("work in the background does not come to rest: more than %d steps\n%s", stepBound, goroutines())
		})
		synctest.Wait()
		c.idle()
	}
}

// Sleep advances the virtual clock.
func (c *C) Sleep(d time.Duration) {
	time.Sleep(d)
	c.Settle()
}

// Chaos turns the yield points of the code under test on: each is, with the given probability, a virtual sleep.
func (c *C) Chaos(p float64, delay time.Duration) {
	vsched.Configure(vsched.Virtual, p, delay, c.Rng.Uint64())
}

func (c *C) Calm() { vsched.Configure(vsched.Off, 0, 1, 1) }

// TempDir makes a directory that ends with the case.
func (c *C) TempDir() string {
	r := c.R
	r.mu.Lock()
	r.dummy++
	d := filepath.Join(r.Dir, fmt.Sprintf("d%d", r.dummy))
	r.mu.Unlock()
	if err := os.MkdirAll(d, 0o755); err != nil {
		r.Inconclusive("scratch directory: %v", err)
	}
	c.Cleanup(func() { os.RemoveAll(d) })
	return d
}

// Random choices.

func (c *C) Intn(n int) int { return c.Rng.IntN(n) }

func (c *C) P(p float64) bool { return c.Rng.Float64() < p }

func Pick[T any](c *C, v []T) T { return v[c.Rng.IntN(len(v))] }

// Bytes returns n random bytes.
func (c *C) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(c.Rng.Uint32())
	}
	return b
}

// Weighted picks an index with probability proportional to its weight.
func (c *C) Weighted(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := c.Rng.IntN(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return len(w) - 1
}

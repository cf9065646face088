// Package hk is the harness kit: deterministic case lists, verdict recording,
// panic attribution and the progress watchdog shared by all of the monitors.
package hk

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

//
// deterministic random numbers
//

// Rand is a splitmix64 generator.
type Rand struct{ s uint64 }

func NewRand(parts ...uint64) *Rand {
	r := &Rand{s: 0x9e3779b97f4a7c15}
	for _, p := range parts {
		r.s ^= p + 0x9e3779b97f4a7c15 + (r.s << 6) + (r.s >> 2)
		r.U64()
	}
	return r
}

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a number in [lo, hi].
func (r *Rand) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }

func (r *Rand) Float() float64 { return float64(r.U64()>>11) / (1 << 53) }

// P returns true with probability num/den.
func (r *Rand) P(num, den int) bool { return r.Intn(den) < num }

func (r *Rand) Pick(xs ...int) int { return xs[r.Intn(len(xs))] }

func (r *Rand) PickS(xs ...string) string { return xs[r.Intn(len(xs))] }

func (r *Rand) Bytes(n int) []byte {
	out := make([]byte, n)
	for i := 0; i < n; i += 8 {
		v := r.U64()
		for j := i; j < n && j < i+8; j++ {
			out[j] = byte(v)
			v >>= 8
		}
	}
	return out
}

func (r *Rand) Perm(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

//
// run
//

// Violation is one observed breach of the property.
type Violation struct {
	Section string   `json:"section"`
	Case    int      `json:"case"`
	Seed    uint64   `json:"seed"`
	Kind    string   `json:"kind"`
	What    string   `json:"what"`
	Log     []string `json:"log"`
}

// Run collects what the monitor of one property observed.
type Run struct {
	Prop    string
	Tier    string
	Seed    uint64
	Scratch string
	Only    string // section/case to replay, if any

	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	nontriv  int64
	samples  []interface{}
	viol     []Violation
	known    []string
	counters map[string]int64
	rules    []string
	out      string
	start    time.Time
}

var progress int64

// Progress tells the watchdog that something was accomplished.
func Progress() { atomic.AddInt64(&progress, 1) }

// Thorough returns if this is a thorough run.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N scales a number of cases with the tier.
func (r *Run) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

// Rule describes how cases are made and what makes them non-trivial.
func (r *Run) Rule(s string) {
	r.mu.Lock()
	r.rules = append(r.rules, s)
	r.mu.Unlock()
}

// Count adds to a named counter of the evidence.
func (r *Run) Count(name string, n int64) {
	r.mu.Lock()
	r.counters[name] += n
	r.mu.Unlock()
}

// Max records the maximum of a named counter.
func (r *Run) Max(name string, n int64) {
	r.mu.Lock()
	if n > r.counters[name] {
		r.counters[name] = n
	}
	r.mu.Unlock()
}

func (r *Run) Counter(name string) int64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.counters[name]
}

// Known records a known finding that was observed again.
func (r *Run) Known(s string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, k := range r.known {
		if k == s {
			return
		}
	}
	r.known = append(r.known, s)
}

// Violations returns how many violations there are.
func (r *Run) Violations() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.viol)
}

func (r *Run) fail(v Violation) {
	r.mu.Lock()
	r.viol = append(r.viol, v)
	n := len(r.viol)
	r.mu.Unlock()
	fmt.Fprintf(os.Stderr, "violation: %s/%d: %s: %s\n", v.Section, v.Case, v.Kind, v.What)
	if n >= 5 {
		r.Finish()
	}
}

// C is one case.
type C struct {
	*Rand
	R       *Run
	Section string
	Index   int

	mu     sync.Mutex
	log    []string
	failed bool
	sig    uint64
	nt     bool
	sample interface{}
}

// Logf adds to the case's log, that is reported with a violation.
func (c *C) Logf(format string, args ...interface{}) {
	c.mu.Lock()
	if len(c.log) < 4000 {
		c.log = append(c.log, fmt.Sprintf(format, args...))
	}
	c.mu.Unlock()
}

// Failf records a violation.
func (c *C) Failf(kind, format string, args ...interface{}) {
	c.mu.Lock()
	if c.failed {
		c.mu.Unlock()
		return
	}
	c.failed = true
	log := append([]string(nil), c.log...)
	c.mu.Unlock()
	c.R.fail(Violation{
		Section: c.Section, Case: c.Index, Seed: c.R.Seed,
		Kind: kind, What: fmt.Sprintf(format, args...), Log: log,
	})
}

// Failed returns if the case has failed.
func (c *C) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.failed
}

// Sig mixes something into the signature that tells distinct cases apart.
func (c *C) Sig(parts ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	c.mu.Lock()
	c.sig = c.sig*1099511628211 ^ h.Sum64()
	c.mu.Unlock()
}

// NonTrivial marks the case as one that exercised what the property is about.
func (c *C) NonTrivial() {
	c.mu.Lock()
	c.nt = true
	c.mu.Unlock()
}

// Sample keeps a description of the case for the evidence.
func (c *C) Sample(x interface{}) {
	c.mu.Lock()
	c.sample = x
	c.mu.Unlock()
}

// Count is a shortcut for the run's counter.
func (c *C) Count(name string, n int64) { c.R.Count(name, n) }

const pkg = "github.com/vivint/rothko"

// RothkoFrame returns the innermost frame of the stack text that is in the code under
// test, as long as it comes before any harness frame.
func RothkoFrame(stack string) string {
	// skip everything up to the panic
	if i := strings.LastIndex(stack, "\npanic("); i >= 0 {
		stack = stack[i:]
	}
	for _, line := range strings.Split(stack, "\n") {
		if strings.HasPrefix(line, "\t") || strings.HasPrefix(line, "goroutine ") {
			continue
		}
		if strings.Contains(line, "internal/zzverif/") || strings.HasPrefix(line, "main.") {
			return ""
		}
		if strings.Contains(line, pkg) && !strings.HasPrefix(line, "created by") {
			if i := strings.LastIndex(line, "("); i > 0 {
				line = line[:i]
			}
			return strings.TrimSpace(line)
		}
	}
	return ""
}

// Guard runs the function, turning a panic that comes out of the code under
// test into a violation. Panics of the harness itself go on.
func (c *C) Guard(what string, fn func()) {
	defer func() {
		if rec := recover(); rec != nil {
			stack := string(debug.Stack())
			if frame := RothkoFrame(stack); frame != "" {
				c.Logf("%s", stack)
				c.Failf("panic", "%s: panic in %s: %v", what, frame, rec)
				return
			}
			// what rothko returned without an error is nil
			if err, ok := rec.(runtime.Error); ok && strings.Contains(err.Error(), "nil pointer dereference") {
				c.Logf("%s", stack)
				c.Failf("nil", "%s: something that was handed out without an error is nil: %v", what, rec)
				return
			}
			panic(fmt.Sprintf("harness panic: %v\n%s", rec, stack))
		}
	}()
	fn()
}

// Cases runs n cases of the section, par at a time.
func (r *Run) Cases(section string, n, par int, fn func(c *C)) {
	r.CasesSig(section, n, par, fn)
}

func (r *Run) CasesSig(section string, n, par int, fn func(c *C)) {
	only := -1
	if r.Only != "" {
		i := strings.LastIndexByte(r.Only, '/')
		if r.Only[:i] != section {
			return
		}
		only, _ = strconv.Atoi(r.Only[i+1:])
	}

	h := fnv.New64a()
	h.Write([]byte(r.Prop + "/" + section))
	base := h.Sum64()

	if par < 1 {
		par = 1
	}
	var wg sync.WaitGroup
	var next int64 = -1
	began := time.Now()
	for p := 0; p < par; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || r.Violations() > 0 {
					return
				}
				if only >= 0 && i != only {
					continue
				}
				c := &C{
					Rand:    NewRand(r.Seed, base, uint64(i)),
					R:       r,
					Section: section,
					Index:   i,
				}
				c.Guard("case", func() { fn(c) })
				Progress()

				r.mu.Lock()
				r.evals++
				r.counters["cases:"+section]++
				if c.nt {
					r.nontriv++
					key := c.sig
					if key == 0 {
						key = base + uint64(i)
					}
					r.distinct[key] = struct{}{}
				}
				if c.sample != nil && len(r.samples) < 6 {
					r.samples = append(r.samples, c.sample)
				}
				r.mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "section %s: %v\n", section, time.Since(began).Round(time.Millisecond))
	}
}

// Require fails the run as inconclusive if a counter is too low: a monitor
// that observed nothing must not report success.
func (r *Run) Require(name string, min int64) {
	if r.Only != "" || r.Violations() > 0 {
		return
	}
	if got := r.Counter(name); got < min {
		fmt.Fprintf(os.Stderr, "inconclusive: observed %s=%d, need %d\n", name, got, min)
		r.write("inconclusive")
		os.Exit(3)
	}
}

func (r *Run) write(status string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	keys := make([]string, 0)
	for k := range r.counters {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	out := map[string]interface{}{
		"status":              status,
		"evaluations":         r.evals,
		"distinct_nontrivial": len(r.distinct),
		"rule":                strings.Join(r.rules, " | "),
		"samples":             r.samples,
		"counters":            r.counters,
		"violations":          r.viol,
		"known":               r.known,
	}
	data, err := json.MarshalIndent(out, "", " ")
	if err != nil {
		panic(err)
	}
	if err := ioutil.WriteFile(r.out+".tmp", data, 0644); err != nil {
		panic(err)
	}
	if err := os.Rename(r.out+".tmp", r.out); err != nil {
		panic(err)
	}
}

// Finish writes the verdict and ends the process.
func (r *Run) Finish() {
	r.write("done")
	os.Exit(0)
}

// TempDir makes a fresh directory for a case.
func (r *Run) TempDir() string {
	dir, err := ioutil.TempDir(r.Scratch, "c")
	if err != nil {
		panic(err)
	}
	return dir
}

// Main runs the monitor of the property chosen by the flags.
func Main(props map[string]func(r *Run)) {
	prop := flag.String("prop", "", "property")
	out := flag.String("out", "", "verdict file")
	scratch := flag.String("scratch", "", "scratch directory")
	memory := flag.Int64("memory", 4096, "limit of the resident memory in MiB")
	only := flag.String("only", "", "section/case")
	stall := flag.Duration("stall", 90*time.Second, "watchdog")
	flag.Parse()

	if *scratch == "" {
		*scratch, _ = ioutil.TempDir("", "verif")
		defer os.RemoveAll(*scratch)
	}
	if *out == "" {
		*out = filepath.Join(*scratch, "verdict.json")
	}
	// the verdict replaces what is there
	if fi, err := os.Lstat(*out); err == nil && !fi.Mode().IsRegular() {
		fmt.Fprintln(os.Stderr, "not a regular file:", *out)
		os.Exit(4)
	}
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}

	fn, ok := props[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such property:", *prop)
		os.Exit(4)
	}

	r := &Run{
		Prop: *prop, Tier: tier, Seed: seed, Scratch: *scratch, Only: *only,
		distinct: make(map[uint64]struct{}),
		counters: make(map[string]int64),
		out:      *out,
		start:    time.Now(),
	}

	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(time.Second)
			if now := atomic.LoadInt64(&progress); now != last {
				last, since = now, time.Now()
			} else if time.Since(since) > *stall {
				buf := make([]byte, 16<<20)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "STALL: no progress for %v\n%s\n", *stall, buf)
				r.write("stalled")
				os.Exit(77)
			}
		}
	}()

	// nothing that is run here needs this much memory at once: whatever does
	// would not stop there, and is caught before it takes the machine down.
	go func() {
		page := int64(os.Getpagesize())
		for {
			time.Sleep(10 * time.Millisecond)
			data, err := ioutil.ReadFile("/proc/self/statm")
			fields := strings.Fields(string(data))
			if err != nil || len(fields) < 2 {
				return
			}
			pages, _ := strconv.ParseInt(fields[1], 10, 64)
			r.Max("peak resident MiB", pages*page>>20)
			if pages*page < *memory<<20 {
				continue
			}
			buf := make([]byte, 16<<20)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "MEMORY: more than %d MiB resident\n%s\n", *memory, buf)
			r.write("memory")
			os.Exit(78)
		}
	}()

	fn(r)
	r.Finish()
}

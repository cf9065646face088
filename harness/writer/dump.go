package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/dump"
	"github.com/vivint/rothko/internal/zzverif/hk"
)

// answer says how a fake database answers one value.
type answer int

const (
	atOnce    answer = iota // callback from inside of the call
	fromOther               // callback from another thread, soon
	later                   // callback some time later
	byReturn                // an error from the call, no callback
	atCancel                // blocks in the call until the context ends
	held                    // callback when released
	numAnswers
)

type handed struct {
	metric     string
	start, end int64
	data       []byte // what was passed
	live       []byte // the caller's buffer
	answered   int32
}

// fakeDB is a database that answers in every way a database may.
type fakeDB struct {
	c    *hk.C
	pick func(n int) (answer, bool, error)
	on   func(n int) // called for every value handed over

	mu      sync.Mutex
	got     []*handed
	release chan struct{}
}

var _ database.DB = (*fakeDB)(nil)

var errFake = errors.New("fake failure")

func (f *fakeDB) Run(ctx context.Context) error { return nil }
func (f *fakeDB) Query(ctx context.Context, metric string, end int64, buf []byte, cb database.ResultCallback) error {
	return errFake
}
func (f *fakeDB) QueryLatest(ctx context.Context, metric string, buf []byte) (int64, int64, []byte, error) {
	return 0, 0, nil, errFake
}
func (f *fakeDB) Metrics(ctx context.Context, cb func(name string) (bool, error)) error {
	return errFake
}

func (f *fakeDB) Queue(ctx context.Context, metric string, start, end int64, data []byte, cb func(bool, error)) error {
	h := &handed{metric: string(append([]byte(nil), metric...)), start: start, end: end,
		data: append([]byte(nil), data...), live: data}
	f.mu.Lock()
	f.got = append(f.got, h)
	n := len(f.got)
	f.mu.Unlock()
	if f.on != nil {
		f.on(n)
	}
	kind, written, err := f.pick(n)
	if cb == nil {
		f.c.Failf("callback", "a value was handed over without asking for the answer")
		return nil
	}
	settle := func() {
		// the buffer is the database's until it answers.
		if !bytes.Equal(h.live, h.data) {
			f.c.Failf("reused", "the buffer of %q changed before the database answered", metric)
		}
		atomic.StoreInt32(&h.answered, 1)
	}
	respond := func() { settle(); cb(written, err) }
	switch kind {
	case atOnce:
		respond()
	case fromOther:
		go respond()
	case later:
		time.AfterFunc(time.Duration(n*37%900)*time.Microsecond, respond)
	case byReturn:
		settle()
		return errFake
	case atCancel:
		select {
		case <-ctx.Done():
		case <-time.After(30 * time.Second):
			f.c.Failf("context", "the context given to the database did not end when the dump was cancelled")
		}
		settle()
		return ctx.Err()
	case held:
		go func() { <-f.release; respond() }()
	}
	return nil
}

func (f *fakeDB) handed() []*handed {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]*handed(nil), f.got...)
}

// settled checks that nothing is waiting for an answer.
func (f *fakeDB) settled(what string) {
	for _, h := range f.handed() {
		if atomic.LoadInt32(&h.answered) == 0 {
			f.c.Failf("early", "%s returned before %q was answered", what, h.metric)
			return
		}
	}
}

func randomAnswers(c *hk.C) func(n int) (answer, bool, error) {
	seed := c.U64()
	only := answer(-1)
	if c.P(1, 2) {
		only = answer(c.Pick(int(atOnce), int(fromOther), int(later), int(byReturn)))
	}
	return func(n int) (answer, bool, error) {
		r := hk.NewRand(seed, uint64(n))
		k := only
		if k < 0 {
			k = answer(r.Intn(int(byReturn) + 1))
		}
		switch r.Intn(4) {
		case 0:
			return k, false, nil
		case 1:
			return k, false, errFake
		case 2:
			return k, true, errFake
		}
		return k, true, nil
	}
}

// decode turns what was handed over into records, comparing the envelope.
func (f *fakeDB) decode(got []*handed) []rec {
	var out []rec
	for _, h := range got {
		var r data.Record
		if err := r.Unmarshal(h.data); err != nil {
			f.c.Failf("bytes", "the bytes for %q do not decode: %v", h.metric, err)
			return nil
		}
		if r.StartTime != h.start || r.EndTime != h.end {
			f.c.Failf("window", "%q: handed over with %d-%d, the record has %d-%d", h.metric, h.start, h.end, r.StartTime, r.EndTime)
			return nil
		}
		out = append(out, rec{metric: h.metric, Record: r})
	}
	return out
}

// within fails when the function takes forever.
func within(c *hk.C, what string, fn func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); fn() }()
	select {
	case <-done:
		return true
	case <-time.After(60 * time.Second):
		c.Failf("blocked", "%s does not return", what)
		return false
	}
}

func bigIDs(c *hk.C, adds []add) {
	if !c.P(1, 3) {
		return
	}
	for i := range adds {
		if c.P(1, 3) {
			adds[i].hasID = true
			adds[i].id += string(c.Bytes(c.Pick(10, 500, 1024, 5000)))
			if c.P(1, 300) {
				adds[i].id += string(c.Bytes(c.Range(1<<16, 1<<20)))
			}
		}
	}
}

func c16(r *hk.Run) {
	r.Rule("dumps of one or several writers at once into databases that answer at once, from other threads, later, by a returned error, or only when the dump is cancelled, with buffers smaller and larger than the records; periodic dumpers that are cancelled before, between and during dumps. every value handed over is decoded and compared with what was added. non-trivial if values were handed over; distinct by shape")
	r.Cases("dump", r.N(3000, 120000), 4, dumpCase)
	r.Cases("cancel", r.N(1500, 50000), 4, dumpCancel)
	r.Cases("run", r.N(120, 4000), 4, dumpRun)
	r.Cases("run-cancel", r.N(400, 10000), 4, dumpRunCancel)
	r.Cases("pace", r.N(2, 20), 2, dumpPace)
	r.Cases("many", r.N(1, 10), 1, dumpMany)
	r.Require("handed", 10000)
	r.Require("cancelled_midway", 200)
	r.Require("periodic_windows", 400)
	r.Require("held_at_cancel", 100)
}

func dumpCase(c *hk.C) {
	d := c.Range(1, 3)
	db := make([]*fakeDB, d)
	bufsize := c.Pick(0, 1, 16, 200, 1024, 65536)
	// a dumper has one database, so writers dumped at once share it.
	f := &fakeDB{c: c, pick: randomAnswers(c)}
	dm := dump.New(dump.Options{DB: f, Period: time.Hour, Bufsize: bufsize})
	_ = db
	rounds := c.Range(1, 3)
	worlds := make([]*world, d)
	for i := range worlds {
		worlds[i] = newWorld(c, c.P(1, 2), c.Pick(0, 8), nil)
	}
	total := 0
	for round := 0; round < rounds && !c.Failed(); round++ {
		adds := make([][]add, d)
		for i, wd := range worlds {
			metrics := makeMetrics(c, c.Pick(1, 3, 20, 60))
			for j := range metrics {
				metrics[j] = fmt.Sprintf("%d!%s", i, metrics[j])
			}
			adds[i] = makeAdds(c, metrics, c.Pick(0, 1, 5, 60, 200), round)
			bigIDs(c, adds[i])
			wd.addAll(adds[i], c.Range(1, 3))
		}
		before := len(f.handed())
		t0 := now()
		if !within(c, "Dump", func() {
			var wg sync.WaitGroup
			for i := range worlds {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					dm.Dump(ctx, worlds[i].w)
				}(i)
			}
			wg.Wait()
		}) {
			return
		}
		t1 := now()
		f.settled("Dump")
		got := f.handed()[before:]
		total += len(got)
		recs := f.decode(got)
		parts := make([][]rec, d)
		for _, r := range recs {
			if r.EndTime < t0 || r.EndTime > t1 {
				c.Failf("window", "%q: a dump from %d to %d ends its record at %d", r.metric, t0, t1, r.EndTime)
			}
			i := int(r.metric[0] - '0')
			if i < 0 || i >= d {
				c.Failf("alien", "no writer has the metric %q", r.metric)
				return
			}
			parts[i] = append(parts[i], r)
		}
		for i, wd := range worlds {
			wd.conserve(parts[i], adds[i], false)
			wd.extremes(parts[i], adds[i])
		}
	}
	if total > 0 {
		c.NonTrivial()
	}
	c.Count("handed", int64(total))
	c.Sig(d, bufsize, rounds, total, c.Intn(1<<16))
	c.Sample(map[string]interface{}{"writers": d, "bufsize": bufsize, "rounds": rounds, "handed_over": total})
}

func dumpCancel(c *hk.C) {
	wd := newWorld(c, true, 0, nil)
	n := c.Pick(1, 5, 40, 100)
	var adds []add
	for i := 0; i < n; i++ {
		adds = append(adds, add{metric: fmt.Sprintf("m%d", i), val: float64(i)})
	}
	wd.addAll(adds, 1)
	cctx, cancel := context.WithCancel(ctx)
	defer cancel()
	at := c.Range(0, n+2) // 0: before
	kind := c.Pick(int(atOnce), int(fromOther), int(later), int(byReturn), int(atCancel))
	other := c.P(1, 2) // cancelled by another thread
	var cancelled int32
	f := &fakeDB{c: c}
	f.pick = func(k int) (answer, bool, error) {
		if answer(kind) == atCancel && k < at {
			return later, true, nil
		}
		return answer(kind), k%2 == 0, nil
	}
	f.on = func(k int) {
		if k == at {
			if other {
				go func() { time.Sleep(time.Duration(k%7) * 20 * time.Microsecond); cancel() }()
			} else {
				cancel()
				atomic.StoreInt32(&cancelled, int32(k))
			}
		}
	}
	if at == 0 {
		cancel()
	} else if at > n && answer(kind) == atCancel {
		return
	}
	dm := dump.New(dump.Options{DB: f, Period: time.Hour, Bufsize: c.Pick(0, 10)})
	if !within(c, "a cancelled Dump", func() { dm.Dump(cctx, wd.w) }) {
		return
	}
	f.settled("a cancelled Dump")
	got := f.handed()
	if at == 0 && len(got) > 1 {
		c.Failf("cancelled", "a dump that was cancelled before it began handed %d of %d records over", len(got), n)
	}
	if k := int(cancelled); k > 0 && len(got) > k+1 {
		c.Failf("cancelled", "a dump cancelled at record %d handed %d of %d over", k, len(got), n)
	}
	seen := make(map[string]bool)
	for _, r := range f.decode(got) {
		r := r
		if seen[r.metric] {
			c.Failf("duplicate", "%q was handed over twice", r.metric)
		}
		seen[r.metric] = true
		if msg := wd.wellFormed(&r); msg != "" {
			c.Failf("malformed", "record of %q: %s", r.metric, msg)
		}
	}
	if len(got) < n && at > 0 {
		c.NonTrivial()
		c.Count("cancelled_midway", 1)
	}
	c.Sig(n, at, kind, other)
}

func dumpRun(c *hk.C) {
	wd := newWorld(c, true, c.Pick(0, 8), nil)
	f := &fakeDB{c: c, pick: randomAnswers(c)}
	dm := dump.New(dump.Options{DB: f, Period: time.Duration(c.Range(100, 3000)) * time.Microsecond, Bufsize: c.Pick(0, 10, 5000)})
	nm := c.Range(1, 6)
	var stop int32
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; atomic.LoadInt32(&stop) == 0 && i < 9000000; i++ {
			wd.w.Add(ctx, fmt.Sprintf("m%d", i%nm), tagged(0, i), nil)
			if i%16 == 0 {
				time.Sleep(50 * time.Microsecond)
			}
		}
	}()
	cctx, cancel := context.WithCancel(ctx)
	ret := make(chan error, 1)
	go func() { ret <- dm.Run(cctx, wd.w) }()
	windows := func() int {
		m := make(map[int64]bool)
		for _, h := range f.handed() {
			m[h.start] = true
		}
		return len(m)
	}
	deadline := time.Now().Add(60 * time.Second)
	for windows() < 4 {
		if time.Now().After(deadline) {
			c.Failf("repeat", "the periodic dumper dumped %d times within a minute", windows())
			break
		}
		time.Sleep(300 * time.Microsecond)
	}
	cancel()
	select {
	case err := <-ret:
		if err != nil {
			c.Failf("error", "a cancelled periodic dumper returned %v", err)
		}
	case <-time.After(60 * time.Second):
		c.Failf("blocked", "a cancelled periodic dumper does not return")
		return
	}
	f.settled("Run")
	n := len(f.handed())
	time.Sleep(time.Millisecond)
	if m := len(f.handed()); m != n {
		c.Failf("after", "%d values were handed over after Run had returned", m-n)
	}
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	recs := f.decode(f.handed())
	seen := make(map[float64]bool)
	byWindow := make(map[int64]int64)
	for _, r := range recs {
		if e, ok := byWindow[r.StartTime]; ok && e != r.EndTime {
			c.Failf("window", "windows that start at %d end at %d and %d", r.StartTime, e, r.EndTime)
		}
		byWindow[r.StartTime] = r.EndTime
		vals, err := listValues(r.Distribution)
		if err != nil {
			c.Failf("bytes", "%v", err)
		}
		for _, v := range vals {
			if seen[v] {
				c.Failf("duplicate", "the value %v was stored twice", v)
			}
			seen[v] = true
		}
	}
	var starts []int64
	for s := range byWindow {
		starts = append(starts, s)
	}
	sort.Slice(starts, func(i, j int) bool { return starts[i] < starts[j] })
	for i := 1; i < len(starts); i++ {
		if starts[i] < byWindow[starts[i-1]] {
			c.Failf("window", "the windows of two dumps overlap")
		}
	}
	c.NonTrivial()
	c.Sig(nm, len(starts), len(recs))
	c.Count("periodic_windows", int64(len(starts)))
}

// dumpPace compares the periodic dumper with the clock.
func dumpPace(c *hk.C) {
	period := time.Duration(c.Range(120, 300)) * time.Millisecond
	ticks := 8
	var dumps []int
	for try := 0; try < 4; try++ {
		wd := newWorld(c, true, 0, nil)
		f := &fakeDB{c: c, pick: randomAnswers(c)}
		dm := dump.New(dump.Options{DB: f, Period: period})
		cctx, cancel := context.WithCancel(ctx)
		ret := make(chan error, 1)
		go func() { ret <- dm.Run(cctx, wd.w) }()
		ticker := time.NewTicker(period)
		add := time.NewTicker(period / 20)
		i := 0
		for n := 0; n < ticks; {
			select {
			case <-ticker.C:
				n++
				hk.Progress()
			case <-add.C:
				wd.w.Add(ctx, "m", float64(i), nil)
				i++
			}
		}
		ticker.Stop()
		add.Stop()
		cancel()
		<-ret
		n := len(f.handed())
		dumps = append(dumps, n)
		if n > ticks/2 && n <= ticks+3 {
			c.Count("dumps_on_time", int64(n))
			c.NonTrivial()
			c.Sig("pace", period, n)
			return
		}
	}
	c.Failf("pace", "in %d periods of %v there were %d dumps", ticks, period, dumps)
}

// dumpMany dumps many records at once.
func dumpMany(c *hk.C) {
	wd := newWorld(c, true, 0, nil)
	f := &fakeDB{c: c, pick: randomAnswers(c)}
	dm := dump.New(dump.Options{DB: f, Period: time.Hour})
	var adds []add
	k := c.Range(66000, 80000)
	for i := 0; i < k; i++ {
		adds = append(adds, add{metric: fmt.Sprintf("m%d.%x", i%97, i), val: float64(i), hasID: true, id: fmt.Sprint(i)})
	}
	wd.addAll(adds, 2)
	if !within(c, "Dump", func() { dm.Dump(ctx, wd.w) }) {
		return
	}
	f.settled("Dump")
	recs := f.decode(f.handed())
	wd.conserve(recs, adds, false)
	wd.extremes(recs, adds)
	c.Count("handed", int64(len(recs)))
	c.NonTrivial()
	c.Sig("many", k)
}

func dumpRunCancel(c *hk.C) {
	wd := newWorld(c, true, 0, nil)
	n := c.Range(1, 30)
	var adds []add
	for i := 0; i < n; i++ {
		adds = append(adds, add{metric: fmt.Sprintf("m%d", i), val: float64(i)})
	}
	wd.addAll(adds, 1)
	cctx, cancel := context.WithCancel(ctx)
	defer cancel()
	at := c.Range(1, n)
	f := &fakeDB{c: c, release: make(chan struct{})}
	kind := answer(c.Pick(int(held), int(later), int(atOnce)))
	f.pick = func(k int) (answer, bool, error) { return kind, true, nil }
	reached := make(chan struct{})
	f.on = func(k int) {
		if k == at {
			cancel()
			close(reached)
		}
	}
	dm := dump.New(dump.Options{DB: f, Period: time.Duration(c.Range(50, 2000)) * time.Microsecond})
	ret := make(chan struct{})
	go func() { dm.Run(cctx, wd.w); close(ret) }()
	select {
	case <-reached:
	case <-time.After(60 * time.Second):
		c.Failf("repeat", "the periodic dumper did not dump within a minute")
		return
	}
	if kind == held {
		select {
		case <-ret:
			c.Failf("early", "the periodic dumper returned during a dump")
		case <-time.After(time.Duration(c.Intn(3000)) * time.Microsecond):
		}
		c.Count("held_at_cancel", 1)
		close(f.release)
	}
	select {
	case <-ret:
	case <-time.After(60 * time.Second):
		c.Failf("blocked", "a cancelled periodic dumper does not return")
		return
	}
	f.settled("Run")
	wd.conserve(f.decode(f.handed()), adds, false)
	c.NonTrivial()
	c.Sig(n, at, int(kind))
}

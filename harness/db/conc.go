package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/internal/zzverif/hk"
)

var noise uint64
var hookCount [16]int64
var hookNames = []string{"queue", "stopping", "written", "walked", "listing", "query", "reading", "record", "metadata", "published", "removed"}

// gates has directories whose walks are published late.
var gates sync.Map

// perturb delays goroutines at the points where they hand over to each other.
func perturb(level int) {
	files.Hook = func(point, name string) {
		if point == "walked" {
			if gate, ok := gates.Load(name); ok {
				select {
				case <-gate.(chan struct{}):
				case <-time.After(300 * time.Millisecond):
				}
			}
		}
		n := atomic.AddUint64(&noise, 1)
		x := (n * 0x9e3779b97f4a7c15) >> 40
		for i, h := range hookNames {
			if h == point {
				atomic.AddInt64(&hookCount[i], 1)
			}
		}
		limit := level
		switch point {
		case "queue", "stopping", "written", "walked", "listing":
			limit *= 4
		}
		switch {
		case point == "query" && x%32 == 1:
			// long enough for several writes
			time.Sleep(time.Duration(x>>8%3000) * time.Microsecond)
		case x%64 < uint64(limit):
			time.Sleep(time.Duration(x>>8%200) * time.Microsecond)
		case x%4 == 0:
			runtime.Gosched()
		}
	}
}

func countHooks(r *hk.Run) {
	for i, h := range hookNames {
		r.Count("hook:"+h, atomic.LoadInt64(&hookCount[i]))
	}
}

//
// C05
//

type queued struct {
	metric     string
	start, end int64
	data       []byte // private copy of what was passed
	over       bool
	nocb       bool
	calls      int32
	ok         bool
	err        error
	late       int32
}

func c05(r *hk.Run) {
	r.Rule("goroutines queueing values (also with contexts that end, callbacks left out, values too large and names too long) while the database is started and stopped over and over, with delays injected between loading the queue and sending, and between replacing and closing it; callers scribble over their buffers after the call. non-trivial if at least one value was written and one discarded; distinct by the counts of each outcome")
	perturb(6)
	r.Cases("storm", r.N(1500, 40000), 4, func(c *hk.C) { storm(c) })
	r.Cases("drop", r.N(500, 10000), 4, func(c *hk.C) { dropFull(c) })
	r.Cases("parallel", r.N(60, 1000), 4, func(c *hk.C) { parallel(c) })
	countHooks(r)
	r.Require("outcome:written", 1000)
	r.Require("outcome:unwritten", 1000)
	r.Require("outcome:failed", 50)
	r.Require("queued_while_stopped_or_stopping", 50)
}

func storm(c *hk.C) {
	cf := conf{
		Size: 128, Cap: c.Pick(2, 5, 20), Files: 0,
		Buffer: c.Pick(0, 0, 1, 2, 4, 16), Drop: c.P(1, 4),
		Workers: c.Range(1, 4), Handles: c.Pick(-1, 1, 4, 64),
	}
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	db := files.New(dir, cf.options())
	c.Logf("%+v", cf)

	g := c.Range(2, 8)
	per := c.Range(10, 50)
	ops := make([][]*queued, g)
	var running, outside int64
	var wg sync.WaitGroup
	for i := 0; i < g; i++ {
		i, rnd := i, hk.NewRand(c.U64())
		mine := fmt.Sprintf("m%d", i)
		wg.Add(1)
		go func() {
			defer wg.Done()
			buf := make([]byte, 0, 2048)
			for k := 0; k < per; k++ {
				q := &queued{metric: mine, start: int64(k), end: int64(k + 1)}
				size := rnd.Range(1, 200)
				if rnd.P(1, 4) {
					q.metric = "shared"
					q.start = 0
					q.end = int64(k*g + i + 1)
				}
				if rnd.P(1, 20) {
					size, q.over = cf.bytes()+1, true
				} else if rnd.P(1, 25) {
					q.metric, q.over = strings.Repeat("x", 300), true
				}
				q.data = rnd.Bytes(size)
				q.nocb = rnd.P(1, 12)

				ctx, cancel := context.Background(), func() {}
				switch rnd.Intn(8) {
				case 0:
					cctx, ccancel := context.WithCancel(ctx)
					ccancel()
					ctx, cancel = cctx, ccancel
				case 1, 2:
					cctx, ccancel := context.WithTimeout(ctx, time.Duration(rnd.Range(0, 2000))*time.Microsecond)
					ctx, cancel = cctx, ccancel
				}
				buf = append(buf[:0], q.data...)
				ops[i] = append(ops[i], q)
				var cb func(bool, error)
				if !q.nocb {
					cb = func(ok bool, err error) {
						if atomic.AddInt32(&q.calls, 1) == 1 {
							q.ok, q.err = ok, err
						}
					}
				}
				if atomic.LoadInt64(&running) == 0 {
					atomic.AddInt64(&outside, 1)
				}
				if err := db.Queue(ctx, q.metric, q.start, q.end, buf, cb); err != nil {
					c.Failf("error", "Queue returned %v", err)
				}
				cancel()
				for j := range buf {
					buf[j] ^= 0xff
				}
				hk.Progress()
				if rnd.P(1, 3) {
					time.Sleep(time.Duration(rnd.Range(0, 300)) * time.Microsecond)
				}
			}
		}()
	}
	finished := make(chan struct{})
	go func() { wg.Wait(); close(finished) }()

	cycle := func(d time.Duration) {
		ctx, cancel := context.WithCancel(context.Background())
		done := make(chan error, 1)
		atomic.StoreInt64(&running, 1)
		go func() { done <- db.Run(ctx) }()
		time.Sleep(d)
		atomic.StoreInt64(&running, 0)
		cancel()
		if err := <-done; err != nil {
			c.Failf("error", "Run returned %v", err)
		}
	}
	cycles := 0
	for open := true; open; cycles++ {
		cycle(time.Duration(c.Range(0, 4000)) * time.Microsecond)
		select {
		case <-finished:
			open = false
		case <-time.After(time.Duration(c.Range(0, 500)) * time.Microsecond):
		}
	}
	// what is in the current queue is answered when that one stops.
	cycle(0)

	var written, unwritten, failed, total int64
	stored := map[string]map[int64]*queued{}
	for _, list := range ops {
		for _, q := range list {
			total++
			calls := atomic.LoadInt32(&q.calls)
			if q.nocb {
				continue
			}
			if calls != 1 {
				c.Failf("answers", "value for %q ending %d was answered %d times after the database has stopped", q.metric, q.end, calls)
				return
			}
			switch {
			case q.err != nil:
				failed++
				if q.ok {
					c.Failf("answers", "value was answered as written with the error %v", q.err)
				}
				if !q.over {
					c.Failf("answers", "value for %q ending %d failed: %v", q.metric, q.end, q.err)
				}
			case q.ok:
				written++
				if q.over {
					c.Failf("answers", "value that can not be stored was answered as written")
				}
				if stored[q.metric] == nil {
					stored[q.metric] = map[int64]*queued{}
				}
				stored[q.metric][q.end] = q
			default:
				unwritten++
			}
		}
	}
	nocb := map[string]map[int64]*queued{}
	for _, list := range ops {
		for _, q := range list {
			if q.nocb && !q.over {
				if nocb[q.metric] == nil {
					nocb[q.metric] = map[int64]*queued{}
				}
				nocb[q.metric][q.end] = q
			}
		}
	}
	n := &node{DB: db}
	names := []string{"shared"}
	for i := 0; i < g; i++ {
		names = append(names, fmt.Sprintf("m%d", i))
	}
	for _, name := range names {
		got, err := n.read(name, maxTime)
		if err != nil && len(stored[name]) > 0 {
			c.Failf("stored", "query of %q with %d values written: %v", name, len(stored[name]), err)
		}
		have := map[int64]bool{}
		for _, v := range got {
			have[v.end] = true
			q := stored[name][v.end]
			if q == nil {
				q = nocb[name][v.end]
			}
			if q == nil {
				c.Failf("stored", "%q has %v, that was never answered as written", name, v)
			} else if !v.same(value{q.start, q.end, q.data}) {
				c.Failf("stored", "%q has %v, not what was passed: %v", name, v, value{q.start, q.end, q.data})
			}
		}
		for end, q := range stored[name] {
			if !have[end] {
				c.Failf("stored", "%q does not have %v, that was answered as written", name, value{q.start, q.end, q.data})
			}
		}
		c.Count("values_compared", int64(len(got)))
	}
	cycle(0) // releases the files the queries opened

	c.Count("outcome:written", written)
	c.Count("outcome:unwritten", unwritten)
	c.Count("outcome:failed", failed)
	c.Count("run_cycles", int64(cycles))
	c.Count("queued_while_stopped_or_stopping", atomic.LoadInt64(&outside))
	c.Sig(cf, g, written, unwritten, failed)
	if written > 0 && unwritten > 0 {
		c.NonTrivial()
	}
	c.Sample(fmt.Sprintf("%+v: %d goroutines, %d values, %d written, %d discarded, %d failed, %d starts",
		cf, g, total, written, unwritten, failed, cycles))
}

// dropFull fills the buffer of a database that is not running.
func dropFull(c *hk.C) {
	cf := conf{Size: 128, Cap: 100, Buffer: c.Range(0, 6), Drop: c.P(2, 3), Workers: c.Range(1, 2), Handles: 4}
	if c.P(1, 15) {
		cf.Buffer = c.Pick(c.Range(7, 300), c.Range(1000, 3000))
	}
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	db := files.New(dir, cf.options())
	for i := c.Intn(3); i > 0; i-- { // it has the same room once it has run
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		if err := db.Run(ctx); err != nil {
			c.Failf("error", "Run returned %v", err)
		}
	}

	total := cf.Buffer + c.Range(1, 5)
	calls := make([]int32, total)
	oks := make([]int32, total)
	for i := 0; i < total; i++ {
		i := i
		ctx, cancel := context.WithCancel(context.Background())
		if !cf.Drop && i >= cf.Buffer {
			cancel() // it would wait for room
		}
		err := db.Queue(ctx, "m", int64(i), int64(i+1), []byte{byte(i)}, func(ok bool, err error) {
			atomic.AddInt32(&calls[i], 1)
			if ok {
				atomic.StoreInt32(&oks[i], 1)
			}
		})
		cancel()
		if err != nil {
			c.Failf("error", "Queue returned %v", err)
		}
		got := atomic.LoadInt32(&calls[i])
		if i >= cf.Buffer && got != 1 {
			c.Failf("answers", "a value that does not fit into the buffer was answered %d times when Queue returned", got)
		}
		if i < cf.Buffer && got != 0 {
			c.Failf("answers", "value %d of the %d that fit into the buffer was answered when Queue returned", i+1, cf.Buffer)
		}
	}
	stop := c.P(1, 2)
	ctx, cancel := context.WithCancel(context.Background())
	if stop {
		cancel()
	}
	done := make(chan error)
	go func() { done <- db.Run(ctx) }()
	if !stop {
		// every buffered value has to be answered while it is running
		for i := 0; i < cf.Buffer; i++ {
			for atomic.LoadInt32(&calls[i]) == 0 {
				time.Sleep(50 * time.Microsecond)
			}
		}
	}
	cancel()
	<-done
	var written int
	for i := range calls {
		if calls[i] != 1 {
			c.Failf("answers", "value %d was answered %d times", i, calls[i])
		}
		written += int(oks[i])
	}
	if !stop && cf.Workers == 1 && written != min(cf.Buffer, total) {
		c.Failf("answers", "%d of %d buffered values were written", written, cf.Buffer)
	}
	c.Sig(cf, total, stop, written)
	c.NonTrivial()
}

// parallel has callbacks that keep all workers but one busy, while callers
// that do not drop values wait for the other one.
func parallel(c *hk.C) {
	cf := conf{Size: 128, Cap: 50, Buffer: c.Pick(0, 1, 5, 200), Workers: c.Range(1, 6), Handles: 4}
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	n := start(dir, cf)
	busy := c.Intn(cf.Workers)
	gate := make(chan struct{})
	entered := make(chan struct{}, busy)
	blocked := make(chan bool, busy)
	for i := 0; i < busy; i++ {
		n.Queue(context.Background(), fmt.Sprintf("busy%d", i), 0, 1, []byte("x"), func(ok bool, err error) {
			entered <- struct{}{}
			<-gate
			blocked <- ok
		})
	}
	limit := time.After(20 * time.Second)
	late := func(what string) {
		c.Failf("waiting", "%s with %d of %d workers busy", what, busy, cf.Workers)
	}
	for i := 0; i < busy; i++ {
		select {
		case <-entered:
		case <-limit:
			late("values are not processed")
			close(gate)
			n.stop()
			return
		}
	}
	// the others have to get through, and none of them may be dropped
	k := c.Range(1, 300)
	answers := make(chan answer, k)
	go func() {
		for i := 0; i < k; i++ {
			n.Queue(context.Background(), fmt.Sprintf("m%d", i%7), int64(i), int64(i+1), []byte("y"), func(ok bool, err error) {
				answers <- answer{ok, err}
			})
		}
	}()
	one := cf.Workers-busy == 1
	for i := 0; i < k; i++ {
		select {
		case a := <-answers:
			if a.err != nil || one && !a.ok {
				c.Failf("answers", "a value was answered %+v by a database that does not drop values", a)
			}
		case <-limit:
			late("values are not answered")
			i = k
		}
	}
	close(gate)
	for i := 0; i < busy && !c.Failed(); i++ {
		if !<-blocked {
			c.Failf("answers", "a value was answered as not written by a database that does not drop values")
		}
	}
	n.stop()
	c.Count("values_past_busy_workers", int64(k))
	c.Sig("parallel", cf, busy, k)
	if busy > 0 {
		c.NonTrivial()
	}
}

//
// C06
//

type op struct {
	kind      byte // w, r, l(atest)
	inv, resp int64
	val       value
	ok        bool
	err       error
	bound     int64
	got       []value
}

func c06(r *hk.Run) {
	r.Rule("writers, readers, latest-value queries and listings over few metrics with few handles, small files and delays at the hook points, under the race detector; each metric's recorded history is checked offline for an order consistent with real time. non-trivial if operations of a metric overlapped; distinct by the order of invocations and responses")
	perturb(3)
	r.Cases("mix", r.N(600, 20000), 3, func(c *hk.C) { mix(c) })
	r.Cases("nested", r.N(150, 4000), 3, func(c *hk.C) { nested(c) })
	countHooks(r)
	r.Require("operations", 5000)
	r.Require("overlapping_pairs", 1000)
	r.Require("values_read", 5000)
	r.Require("nested_writes", 1000)
	r.Require("nested_queries", 1000)
	r.Require("nested_listings", 500)
}

func mix(c *hk.C) {
	cf := conf{
		Size: c.Pick(100, 128, 256), Cap: c.Pick(1, 2, 3, 6, 30), Files: c.Pick(0, 0, 1, 2, 3),
		Buffer: c.Pick(0, 1, 10), Workers: c.Range(1, 5), Handles: c.Pick(-1, 1, 1, 2, 3, 16),
	}
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	n := start(dir, cf)
	c.Logf("%+v", cf)

	metrics := c.Range(1, 4)
	var clock int64
	now := func() int64 { return atomic.AddInt64(&clock, 1) }
	ends := make([]int64, metrics)
	var mu sync.Mutex
	hist := make([][]*op, metrics)

	nw, nr := c.Range(1, 5), c.Range(1, 4)
	per := c.Range(15, 50)
	maxlen := c.Pick(60, 150, 300)
	if maxlen > cf.bytes() {
		maxlen = cf.bytes()
	}
	var wg sync.WaitGroup
	worker := func(fn func(rnd *hk.Rand, m int) *op) {
		wg.Add(1)
		rnd := hk.NewRand(c.U64())
		go func() {
			defer wg.Done()
			for i := 0; i < per && !c.Failed(); i++ {
				m := rnd.Intn(metrics)
				o := fn(rnd, m)
				mu.Lock()
				hist[m] = append(hist[m], o)
				mu.Unlock()
				hk.Progress()
			}
		}()
	}
	name := func(m int) string { return []string{"a", "a.b", "c", "d.e.f"}[m] }
	for i := 0; i < nw; i++ {
		worker(func(rnd *hk.Rand, m int) *op {
			end := atomic.AddInt64(&ends[m], 1)
			o := &op{kind: 'w', val: value{end - 1, end, rnd.Bytes(rnd.Range(0, maxlen))}}
			o.inv = now()
			a := n.put(name(m), o.val.start, o.val.end, o.val.data)
			o.resp = now()
			o.ok, o.err = a.ok, a.err
			return o
		})
	}
	for i := 0; i < nr; i++ {
		worker(func(rnd *hk.Rand, m int) *op {
			if rnd.P(1, 3) {
				o := &op{kind: 'l'}
				o.inv = now()
				s, e, d, err := n.QueryLatest(context.Background(), name(m), nil)
				o.resp = now()
				o.err = err
				if err == nil && (s != 0 || e != 0 || d != nil) {
					o.got = []value{{s, e, append([]byte(nil), d...)}}
				}
				return o
			}
			o := &op{kind: 'r', bound: maxTime}
			if rnd.P(1, 3) {
				o.bound = int64(rnd.Range(0, int(atomic.LoadInt64(&ends[m]))+1))
			}
			o.inv = now()
			o.got, o.err = n.read(name(m), o.bound)
			o.resp = now()
			return o
		})
	}
	if c.P(1, 2) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < per && !c.Failed(); i++ {
				if _, err := n.list(); err != nil {
					c.Failf("error", "listing: %v", err)
				}
				if i%8 == 0 {
					n.PopulateMetrics(context.Background())
				}
			}
		}()
	}
	wg.Wait()
	if err := n.stop(); err != nil {
		c.Failf("error", "stop: %v", err)
	}
	for m := range hist {
		checkLinear(c, cf, name(m), hist[m])
	}
	var overlaps int
	for _, h := range hist {
		for i, a := range h {
			for _, b := range h[i+1:] {
				if a.inv < b.resp && b.inv < a.resp {
					overlaps++
				}
			}
			c.Sig(a.kind, a.inv, a.resp, a.ok, len(a.got))
		}
	}
	c.Count("overlapping_pairs", int64(overlaps))
	if overlaps > 0 {
		c.NonTrivial()
	}
	c.Sample(fmt.Sprintf("%+v: %d metrics, %d writers, %d readers, %d overlapping pairs", cf, metrics, nw, nr, overlaps))
}

func checkLinear(c *hk.C, cf conf, name string, hist []*op) {
	c.Count("operations", int64(len(hist)))
	sort.Slice(hist, func(i, j int) bool { return hist[i].inv < hist[j].inv })

	// accepted values in the only order they can have been accepted in
	var acc []*op
	maxnr := 1
	for _, o := range hist {
		if o.kind == 'w' {
			if o.err != nil {
				c.Failf("linear", "write of %v to %q failed: %v", o.val, name, o.err)
				return
			}
			if o.ok {
				acc = append(acc, o)
				maxnr = max(maxnr, cf.slots(len(o.val.data)))
			}
		}
	}
	sort.Slice(acc, func(i, j int) bool { return acc[i].val.end < acc[j].val.end })
	index := map[int64]int{}
	for i, o := range acc {
		index[o.val.end] = i
	}
	c.Count("values_accepted", int64(len(acc)))

	// position of each operation in that order: a write has the index of its
	// value, a read the index of the newest value it saw.
	type pos struct {
		*op
		at, low int
	}
	var ps []pos
	describe := func(o *op) string {
		return fmt.Sprintf("%c during [%d,%d] of %q (%v, ok %v, %d results)", o.kind, o.inv, o.resp, name, o.val, o.ok, len(o.got))
	}
	for _, o := range hist {
		switch o.kind {
		case 'w':
			if o.ok {
				ps = append(ps, pos{o, index[o.val.end], 0})
				continue
			}
			// refused: something at least as late was accepted before it answered
			found := false
			for _, a := range acc {
				if a.val.end >= o.val.end && a.inv < o.resp {
					found = true
					break
				}
			}
			if !found {
				c.Failf("linear", "%s was refused, but nothing as late had been written", describe(o))
				return
			}
			c.Count("writes_refused", 1)
		default:
			if o.err != nil {
				if !errors.Is(unwrap(o.err), os.ErrNotExist) {
					c.Failf("linear", "%s failed: %v", describe(o), o.err)
					return
				}
				o.got = nil
			}
			c.Count("values_read", int64(len(o.got)))
			at, low := -1, 0
			for i, v := range o.got {
				j, ok := index[v.end]
				if !ok {
					c.Failf("linear", "%s returned %v, that was not accepted", describe(o), v)
					return
				}
				if !v.same(acc[j].val) {
					c.Failf("linear", "%s returned %v instead of %v", describe(o), v, acc[j].val)
					return
				}
				if acc[j].inv > o.resp {
					c.Failf("linear", "%s returned %v before it was written", describe(o), v)
					return
				}
				if i == 0 {
					at = j
				} else if o.kind == 'r' && j != low-1 {
					c.Failf("linear", "%s returned %v right after %v, but not what was accepted between them", describe(o), v, o.got[i-1])
					return
				}
				low = j
			}
			if o.kind == 'r' && o.bound != maxTime {
				for _, v := range o.got {
					if v.end >= o.bound {
						c.Failf("linear", "%s before %d returned %v", describe(o), o.bound, v)
						return
					}
				}
				// everything acknowledged before it that is before the bound,
				// and younger than all it returned
				for j := at + 1; j < len(acc); j++ {
					if acc[j].val.end < o.bound && acc[j].resp < o.inv && cf.Files == 0 {
						c.Failf("linear", "%s before %d did not return %v", describe(o), o.bound, acc[j].val)
						return
					}
				}
				continue
			}
			if o.kind == 'r' && at >= 0 {
				keep := 0
				if cf.Files > 0 && at+1 > cf.Files+1 {
					slots := cf.Files * (cf.Cap - maxnr + 1)
					keep = at + 1
					for keep > 0 {
						nr := cf.slots(len(acc[keep-1].val.data))
						if slots < nr {
							break
						}
						slots -= nr
						keep--
					}
				}
				if low > keep {
					c.Failf("linear", "%s lost %v, it has only those from %v on", describe(o), acc[keep].val, acc[low].val)
					return
				}
			}
			if o.kind == 'l' {
				low = -1
			}
			ps = append(ps, pos{o, at, low})
		}
	}
	// real time order
	for _, a := range ps {
		for _, b := range ps {
			if a.resp >= b.inv {
				continue
			}
			c.Count("ordered_pairs", 1)
			bad := false
			switch {
			case a.kind == 'w' && b.kind == 'w':
				bad = a.at >= b.at
			case a.kind == 'w':
				bad = a.at > b.at
			case b.kind == 'w':
				bad = a.at >= b.at
			default:
				bad = a.at > b.at || (a.kind == 'r' && b.kind == 'r' && a.at >= 0 && b.low >= 0 && b.low < a.low)
			}
			if bad {
				c.Failf("linear", "no order explains that %s happened before %s", describe(a.op), describe(b.op))
				return
			}
		}
	}
}

// nested uses the database inside of its callbacks: callbacks of writes query,
// list and queue, those of queries query metrics further on, and those of
// listings query and list. None of them waits for anything that could wait for
// it, so all of them have to finish.
func nested(c *hk.C) {
	cf := conf{
		Size: 128, Cap: c.Pick(2, 5, 30), Files: 0,
		Buffer: 5000, Workers: c.Range(1, 4), Handles: c.Pick(-1, 1, 2, 64),
	}
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	n := start(dir, cf)
	c.Logf("%+v", cf)

	metrics := c.Range(2, 40)
	name := func(m int) string { return fmt.Sprintf("m%02d", m) }
	ends := make([]int64, metrics)
	var acked = make([]int64, metrics) // the newest end that was acknowledged
	var mus = make([]sync.Mutex, metrics)
	var writes, queries, listings int64
	var wg sync.WaitGroup
	raise := func(at *int64, to int64) {
		for {
			was := atomic.LoadInt64(at)
			if was >= to || atomic.CompareAndSwapInt64(at, was, to) {
				return
			}
		}
	}
	content := func(m int, end int64) []byte { return []byte(fmt.Sprintf("%d/%d", m, end)) }
	bg := context.Background()

	// latest checks that the newest value of m is at least as new as what had
	// been acknowledged.
	latest := func(m int) {
		least := atomic.LoadInt64(&acked[m])
		_, end, data, err := n.QueryLatest(bg, name(m), nil)
		atomic.AddInt64(&queries, 1)
		hk.Progress()
		if least == 0 && (err != nil || end == 0) {
			return // never written, or about to be
		}
		if err != nil || end < least || string(data) != string(content(m, end)) {
			c.Failf("nested", "the latest value of %q ends at %d (%q, %v), but %d had been acknowledged", name(m), end, data, err, least)
		}
	}
	list := func(each func(m string)) {
		var least []string
		for m := range acked {
			if atomic.LoadInt64(&acked[m]) > 0 {
				least = append(least, name(m))
			}
		}
		have := map[string]bool{}
		err := n.Metrics(bg, func(m string) (bool, error) {
			have[m] = true
			each(m)
			return true, nil
		})
		if err != nil {
			c.Failf("nested", "listing: %v", err)
		}
		for _, m := range least {
			if !have[m] {
				c.Failf("nested", "a listing does not have %q, that had been acknowledged", m)
			}
		}
		atomic.AddInt64(&listings, 1)
		hk.Progress()
	}
	var queue func(rnd uint64, m int, depth int)
	queue = func(seed uint64, m int, depth int) {
		wg.Add(1)
		mus[m].Lock() // one goroutine at a time hands out the ends of a metric in order
		defer mus[m].Unlock()
		ends[m]++
		end := ends[m]
		err := n.Queue(bg, name(m), end-1, end, content(m, end), func(ok bool, err error) {
			defer wg.Done()
			rnd := hk.NewRand(seed)
			atomic.AddInt64(&writes, 1)
			hk.Progress()
			if err != nil {
				c.Failf("nested", "value of %q ending %d: %v", name(m), end, err)
				return
			}
			if ok {
				raise(&acked[m], end)
			} else if cf.Workers == 1 {
				c.Failf("nested", "value of %q ending %d was not written by the only worker", name(m), end)
			}
			switch rnd.Intn(6) {
			case 0, 1:
				latest(m)
			case 2:
				latest(rnd.Intn(metrics))
			case 3:
				list(func(string) {})
			case 4:
				if depth > 0 {
					queue(rnd.U64(), m, depth-1)
					queue(rnd.U64(), rnd.Intn(metrics), depth-1)
				}
			}
		})
		if err != nil {
			c.Failf("nested", "Queue returned %v", err)
		}
	}
	var query func(rnd *hk.Rand, m int)
	query = func(rnd *hk.Rand, m int) {
		err := n.Query(bg, name(m), maxTime, nil, func(ctx context.Context, start, end int64, data []byte) (bool, error) {
			if string(data) != string(content(m, end)) {
				c.Failf("nested", "query of %q has %q ending at %d", name(m), data, end)
			}
			if m+1 < metrics {
				switch rnd.Intn(6) {
				case 0:
					query(rnd, m+1+rnd.Intn(metrics-m-1))
				case 1, 2:
					latest(m + 1 + rnd.Intn(metrics-m-1))
				}
			}
			if rnd.P(1, 6) {
				list(func(string) {})
			}
			if rnd.P(1, 12) {
				// queueing waits for nothing, there is room
				queue(rnd.U64(), rnd.Intn(metrics), 0)
			}
			return rnd.P(3, 4), nil
		})
		if err != nil && !errors.Is(unwrap(err), os.ErrNotExist) {
			c.Failf("nested", "query of %q: %v", name(m), err)
		}
		atomic.AddInt64(&queries, 1)
		hk.Progress()
	}
	run := func(fn func(rnd *hk.Rand)) {
		wg.Add(1)
		rnd := hk.NewRand(c.U64())
		go func() {
			defer wg.Done()
			fn(rnd)
		}()
	}
	for k := c.Range(1, 3); k > 0; k-- {
		run(func(rnd *hk.Rand) {
			for i := 0; i < 40 && !c.Failed(); i++ {
				queue(rnd.U64(), rnd.Intn(metrics), 2)
			}
		})
	}
	for k := c.Range(1, 3); k > 0; k-- {
		run(func(rnd *hk.Rand) {
			for i := 0; i < 15 && !c.Failed(); i++ {
				query(rnd, rnd.Intn(metrics))
			}
		})
	}
	for k := c.Range(1, 3); k > 0; k-- {
		run(func(rnd *hk.Rand) {
			for i := 0; i < 6 && !c.Failed(); i++ {
				list(func(m string) {
					switch rnd.Intn(12) {
					case 0:
						list(func(string) {})
					case 1:
						if _, _, _, err := n.QueryLatest(bg, m, nil); err != nil {
							c.Failf("nested", "latest value of %q while it is listed: %v", m, err)
						}
						atomic.AddInt64(&queries, 1)
					case 2:
						n.PopulateMetrics(bg)
					}
				})
			}
		})
	}
	wg.Wait()

	// a listing and a query whose consumers wait for other ones, and for writes
	last := metrics - 1
	if last > 0 {
		a := n.put(name(last), 1<<40, 1<<40+1, content(last, 1<<40+1))
		b := n.put(name(0), 1<<40, 1<<40+1, content(0, 1<<40+1))
		if !a.ok || !b.ok {
			c.Failf("nested", "late values were answered %+v and %+v", a, b)
		}
		first := true
		inside := func() {
			if !first {
				return
			}
			first = false
			done := make(chan struct{})
			go func() {
				defer close(done)
				list(func(string) {})
				if a := n.put(name(last), 1<<40+1, 1<<40+2, content(last, 1<<40+2)); !a.ok {
					c.Failf("nested", "a value written while another metric is read was answered %+v", a)
				}
				n.read(name(last), maxTime)
				n.QueryLatest(bg, "none", nil)
			}()
			<-done
		}
		if c.P(1, 2) {
			list(func(string) { inside() })
		} else {
			n.Query(bg, name(0), maxTime, nil, func(ctx context.Context, s, e int64, d []byte) (bool, error) {
				inside()
				return false, nil
			})
		}
	}
	if err := n.stop(); err != nil {
		c.Failf("error", "stop: %v", err)
	}
	c.Count("nested_writes", writes)
	c.Count("nested_queries", queries)
	c.Count("nested_listings", listings)
	c.Sig("nested", cf, metrics, writes, queries, listings)
	c.NonTrivial()
	c.Sample(fmt.Sprintf("%+v: %d metrics, %d writes, %d queries and %d listings, many of them inside of others", cf, metrics, writes, queries, listings))
}

//
// C09
//

func c09(r *hk.Run) {
	r.Rule("concurrent writers of many names, listings and directory walks, with delays between the walk and its publication and between a write and the addition of its name, and restarts; each listing has to contain everything acknowledged before it began. non-trivial if listings overlapped writes; distinct by the listings' sizes and times")
	perturb(5)
	r.Cases("names", r.N(450, 12000), 3, func(c *hk.C) { names(c) })
	r.Cases("serial", r.N(250, 6000), 8, func(c *hk.C) { namesSerial(c) })
	r.Cases("early", r.N(80, 2000), 8, func(c *hk.C) { namesEarly(c) })
	r.Cases("many", r.N(2, 12), 2, func(c *hk.C) { namesMany(c) })
	countHooks(r)
	r.Require("largest_listing", 10000)
	r.Require("listings", 2000)
	r.Require("listings_during_writes", 300)
	r.Require("consumers_listings", 100)
	r.Require("walks", 100)
}

type listing struct {
	inv, resp int64
	names     []string
}

func names(c *hk.C) {
	cf := conf{Size: 100, Cap: 2, Files: 1, Buffer: c.Pick(0, 4), Workers: c.Range(1, 5), Handles: c.Pick(-1, 1, 8)}
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)

	var clock int64
	now := func() int64 { return atomic.AddInt64(&clock, 1) }
	type ack struct{ inv, resp int64 }
	acks := map[string]ack{}
	attempts := map[string]int64{}
	var mu sync.Mutex
	var lists []listing
	var writing, during int64

	pool := make([]string, c.Range(5, 60))
	for i := range pool {
		switch c.Intn(4) {
		case 0:
			pool[i] = fmt.Sprintf("m%d", i)
		case 1:
			pool[i] = fmt.Sprintf("a.b%d.c", i%7)
		case 2:
			pool[i] = fmt.Sprintf("x.%d.%d", i%3, i)
		default:
			pool[i] = fmt.Sprintf("x.%d", i)
		}
	}
	// the position of an end makes each value of a name later than the others
	var seq int64

	for round := c.Range(1, 3); round > 0 && !c.Failed(); round-- {
		n := start(dir, cf)
		if len(acks) > 0 {
			// the scan of the restarted database has to finish some time
			want := len(acks)
			for i := 0; ; i++ {
				got, err := n.list()
				if err != nil {
					c.Failf("listing", "listing: %v", err)
				}
				if len(got) >= want {
					break
				}
				if i == 20000 {
					c.Failf("listing", "after a restart the listing has %d of %d names: %q", len(got), want, got)
					break
				}
				time.Sleep(time.Millisecond)
			}
			c.Count("restarts", 1)
		}
		var wg sync.WaitGroup
		run := func(k int, fn func(rnd *hk.Rand)) {
			wg.Add(1)
			rnd := hk.NewRand(c.U64())
			go func() {
				defer wg.Done()
				for i := 0; i < k && !c.Failed(); i++ {
					fn(rnd)
					hk.Progress()
				}
			}()
		}
		for w := c.Range(1, 4); w > 0; w-- {
			run(c.Range(10, 40), func(rnd *hk.Rand) {
				name := pool[rnd.Intn(len(pool))]
				inv := now()
				mu.Lock()
				if _, ok := attempts[name]; !ok {
					attempts[name] = inv
				}
				mu.Unlock()
				atomic.AddInt64(&writing, 1)
				end := atomic.AddInt64(&seq, 1)
				a := n.put(name, end-1, end, rnd.Bytes(rnd.Range(0, 100)))
				atomic.AddInt64(&writing, -1)
				resp := now()
				if a.ok {
					mu.Lock()
					if _, ok := acks[name]; !ok {
						acks[name] = ack{inv, resp}
					}
					mu.Unlock()
				}
			})
		}
		for w := c.Range(1, 4); w > 0; w-- {
			run(c.Range(10, 40), func(rnd *hk.Rand) {
				if atomic.LoadInt64(&writing) > 0 {
					atomic.AddInt64(&during, 1)
				}
				l := listing{inv: now()}
				got, err := n.list()
				l.resp = now()
				l.names = got
				if err != nil {
					c.Failf("listing", "listing: %v", err)
				}
				mu.Lock()
				lists = append(lists, l)
				mu.Unlock()
			})
		}
		for w := c.Range(0, 2); w > 0; w-- {
			run(c.Range(3, 15), func(rnd *hk.Rand) {
				if err := n.PopulateMetrics(context.Background()); err != nil {
					c.Failf("listing", "walk: %v", err)
				}
				c.Count("walks", 1)
			})
		}
		wg.Wait()
		// with everything quiet
		l := listing{inv: now()}
		l.names, _ = n.list()
		l.resp = now()
		lists = append(lists, l)
		if err := n.stop(); err != nil {
			c.Failf("error", "stop: %v", err)
		}
	}

	for _, l := range lists {
		set := map[string]bool{}
		for i, name := range l.names {
			if i > 0 && name <= l.names[i-1] {
				c.Failf("listing", "listing has %q after %q", name, l.names[i-1])
			}
			set[name] = true
			if inv, ok := attempts[name]; !ok || inv > l.resp {
				c.Failf("listing", "listing has %q, that was never written", name)
			}
		}
		for name, a := range acks {
			if a.resp < l.inv && !set[name] {
				c.Failf("listing", "listing during [%d,%d] does not have %q, acknowledged at %d: %q", l.inv, l.resp, name, a.resp, l.names)
			}
		}
		c.Sig(l.inv, l.resp, len(l.names))
	}
	c.Count("listings", int64(len(lists)))
	c.Count("listings_during_writes", during)
	c.Count("names", int64(len(acks)))
	if during > 0 {
		c.NonTrivial()
	}
	c.Sample(fmt.Sprintf("%+v: %d names acknowledged, %d listings", cf, len(acks), len(lists)))
}

// namesSerial checks what consumers of a listing cause, and that queries and
// refused names do not show up.
func namesSerial(c *hk.C) {
	cf := conf{Size: 100, Cap: 3, Files: 1, Workers: c.Range(1, 3), Handles: 4}
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	n := start(dir, cf)
	ctx := context.Background()
	want := map[string]bool{}
	k, most, pad := c.Range(1, 30), 15, 0
	switch c.Intn(24) {
	case 0: // directories with many entries
		k, most = c.Range(150, 400), 1000
	case 1: // and with long ones
		k, most, pad = c.Range(10, 60), 100, c.Pick(100, 200, 249, 250)
	}
	parents := []string{"a.", "b.", "", "a.b."}
	if c.P(1, 3) {
		parents = append(parents, strings.Repeat("d.", c.Range(3, 40)), strings.Repeat("long", 50)+".")
	}
	odd := c.P(1, 3)
	for i := 0; i < k; i++ {
		name := fmt.Sprintf("%s%s%d", c.PickS(parents...), strings.Repeat("n", c.Intn(pad+1)), c.Intn(most))
		if odd && pad == 0 && c.P(1, 2) { // that tools and file systems treat differently
			name = fmt.Sprintf("%s%s%s%s", c.PickS(parents...), c.PickS("", "", "~", "#", ".", "..", "_", "-", "%", "$", " ", "\xff", "lost+found"), c.PickS("", "x", "1", "tmp", "data", "lost+found"), c.PickS("", "", "~", "#", ".tmp", ".data", ".lock", ".swp", ".", " ", "-"))
		}
		if a := n.put(name, int64(i), int64(i+1), c.Bytes(10)); a.ok {
			want[name] = true
		}
		ghost := fmt.Sprintf("ghost.%d", i)
		switch c.Intn(4) {
		case 0:
			n.read(ghost, maxTime)
		case 1:
			n.QueryLatest(ctx, ghost, nil)
		}
		if c.P(1, 3) && (k <= 30 || c.P(1, 20)) {
			n.PopulateMetrics(ctx)
		}
	}
	var sorted []string
	for name := range want {
		sorted = append(sorted, name)
	}
	sort.Strings(sorted)
	restart := c.P(1, 2)
	if restart {
		n.stop()
		n = start(dir, cf)
		if err := n.PopulateMetrics(ctx); err != nil {
			c.Failf("listing", "walk: %v", err)
		}
	}
	got, err := n.list()
	if err != nil || strings.Join(got, "\n") != strings.Join(sorted, "\n") {
		c.Failf("listing", "listing has %q (error %v) instead of %q", got, err, sorted)
	}
	stop := c.Intn(len(sorted))
	boom := errors.New("consumer failed")
	for _, fail := range []bool{false, true} {
		var seen []string
		err = n.Metrics(ctx, func(name string) (bool, error) {
			seen = append(seen, name)
			if len(seen) == stop+1 {
				if fail {
					return c.P(1, 2), boom
				}
				return false, nil
			}
			return true, nil
		})
		if strings.Join(seen, "\n") != strings.Join(sorted[:stop+1], "\n") {
			c.Failf("listing", "stopped listing has %q of %q", seen, sorted)
		}
		if fail != (unwrap(err) == boom) || (!fail && err != nil) {
			c.Failf("listing", "listing with a consumer that fails (%v) returned %v", fail, err)
		}
	}
	// consumers that use the database themselves while they are shown a name
	added := []string{}
	lists := 0
	var seen []string
	err = n.Metrics(ctx, func(name string) (bool, error) {
		seen = append(seen, name)
		if len(added) >= 4 || !c.P(1, 3) {
			return true, nil
		}
		more := fmt.Sprintf("%sadded%d", c.PickS("", "a.", "zz."), len(added))
		if a := n.put(more, 0, 1, c.Bytes(10)); !a.ok {
			c.Failf("listing", "value of %q, written by the consumer of a listing, was answered %+v", more, a)
		}
		added = append(added, more)
		if c.P(1, 3) {
			if err := n.PopulateMetrics(ctx); err != nil {
				c.Failf("listing", "walk by the consumer of a listing: %v", err)
			}
		}
		got, err := n.list()
		all := append(append([]string{}, sorted...), added...)
		sort.Strings(all)
		if err != nil || strings.Join(got, "\n") != strings.Join(all, "\n") {
			c.Failf("listing", "listing by the consumer of a listing has %q (error %v) instead of %q", got, err, all)
		}
		lists++
		return true, nil
	})
	if err != nil {
		c.Failf("listing", "listing with a consumer that uses the database returned %v", err)
	}
	mine := map[string]bool{}
	for _, name := range added {
		mine[name] = true
	}
	var old []string
	for i, name := range seen {
		if i > 0 && seen[i-1] >= name {
			c.Failf("listing", "listing with a consumer that uses the database has %q before %q", seen[i-1], name)
		}
		if !mine[name] {
			old = append(old, name)
		}
	}
	if strings.Join(old, "\n") != strings.Join(sorted, "\n") {
		c.Failf("listing", "listing with a consumer that uses the database has %q of %q", seen, sorted)
	}
	n.stop()
	c.Count("listings", 4)
	c.Count("consumers_listings", int64(lists))
	c.Sig(sorted, stop, restart)
	c.NonTrivial()
}

// namesEarly restarts databases, and writes and lists before the walk of the
// directory has been published.
func namesEarly(c *hk.C) {
	cf := conf{Size: 100, Cap: c.Range(1, 3), Files: c.Range(0, 3), Workers: c.Range(1, 3), Handles: c.Pick(-1, 1, 8)}
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	n := start(dir, cf)
	k := c.Range(2, 20)
	all := map[string]bool{}
	var names []string
	end := int64(0)
	for i := 0; i < k; i++ {
		name := fmt.Sprintf("%s%d", c.PickS("", "a.", "a.b."), i)
		names = append(names, name)
		for v := c.Range(1, 12); v > 0; v-- {
			end++
			if a := n.put(name, end-1, end, c.Bytes(20)); !a.ok {
				c.Failf("listing", "value of %q was answered %+v", name, a)
			}
			all[name] = true
		}
	}
	n.stop()

	gate := make(chan struct{})
	gates.Store(dir, gate)
	defer gates.Delete(dir)
	n = start(dir, cf)
	acked := map[string]bool{}
	check := func(least map[string]bool, when string) {
		got, err := n.list()
		if err != nil {
			c.Failf("listing", "listing %s: %v", when, err)
		}
		have := map[string]int{}
		for i, name := range got {
			have[name]++
			if !all[name] {
				c.Failf("listing", "a listing %s has %q, that was never written", when, name)
			}
			if i > 0 && got[i-1] >= name {
				c.Failf("listing", "a listing %s has %q before %q", when, got[i-1], name)
			}
		}
		for name := range least {
			if have[name] != 1 {
				c.Failf("listing", "a listing %s has %q %d times, that had been acknowledged", when, name, have[name])
			}
		}
		c.Count("listings", 1)
	}
	for i := c.Range(1, 12); i > 0; i-- {
		name := names[c.Intn(len(names))]
		if c.P(1, 4) {
			name = fmt.Sprintf("new.%d", c.Intn(5))
		}
		all[name] = true
		end++
		if a := n.put(name, end-1, end, c.Bytes(20)); a.ok {
			acked[name] = true
		} else {
			c.Failf("listing", "value of %q was answered %+v", name, a)
		}
		check(acked, "while the directory is walked")
		if c.P(1, 3) {
			n.read(names[c.Intn(len(names))], maxTime)
		}
	}
	close(gate)
	if err := n.PopulateMetrics(context.Background()); err != nil {
		c.Failf("listing", "walk: %v", err)
	}
	check(all, "after a walk")
	n.stop()
	c.Count("early_writes", int64(len(acked)))
	c.Sig("early", cf, len(all), len(acked))
	c.NonTrivial()
}

// namesMany lists databases with so many metrics, in directories so large or
// so deep, that no buffer or limit holds them.
func namesMany(c *hk.C) {
	cf := conf{Size: 100, Cap: 2, Files: 1, Buffer: 100, Workers: c.Range(1, 4), Handles: c.Pick(1, 64)}
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	k, per := c.Range(10500, 13000), c.Pick(7, 300, 6000)
	if c.R.Thorough() && c.Index%4 == 0 {
		k, per = c.Range(66000, 70000), 1000
	}
	if c.Index%2 == 1 { // below many levels
		k, per = c.Range(1000, 2000), 40
	}
	name := func(i int) string {
		if c.Index%2 == 1 {
			return strings.Repeat("d.", i/per+3) + fmt.Sprint(i%per)
		}
		return fmt.Sprintf("m%d.%x", i/per, i)
	}
	path := func(i int) string { return filepath.Join(dir, strings.Replace(name(i), ".", "/", -1)) }

	// metrics that have the same value share their file. some are written.
	n := start(dir, cf)
	var want []string
	var wg sync.WaitGroup
	for i := 0; i < k; i++ {
		want = append(want, name(i))
		if i == 0 {
			if a := n.put(name(i), 0, 1, []byte("value")); !a.ok {
				c.Failf("listing", "value of %q was answered %+v", name(i), a)
			}
			continue
		}
		if i%8 == 1 {
			wg.Add(1)
			n.Queue(context.Background(), name(i), 0, 1, []byte("value"), func(ok bool, err error) {
				if !ok {
					c.Failf("listing", "value of %q was answered %v %v", name(i), ok, err)
				}
				wg.Done()
			})
			continue
		}
		if err := os.MkdirAll(path(i), 0755); err != nil {
			panic(err)
		}
		if err := os.Link(path(0)+"/1.data", path(i)+"/1.data"); err != nil {
			panic(err)
		}
		if i%500 == 0 {
			hk.Progress()
		}
	}
	wg.Wait()
	sort.Strings(want)
	check := func(when string) {
		got, err := n.list()
		if err != nil || strings.Join(got, "\n") != strings.Join(want, "\n") {
			at := 0
			for at < len(got) && at < len(want) && got[at] == want[at] {
				at++
			}
			g, w := "nothing", "nothing"
			if at < len(got) {
				g = got[at]
			}
			if at < len(want) {
				w = want[at]
			}
			c.Failf("listing", "%s the listing has %d of %d names (error %v), at %d there is %q instead of %q", when, len(got), len(want), err, at, g, w)
		}
		c.Count("listings", 1)
		hk.Progress()
	}
	if err := n.PopulateMetrics(context.Background()); err != nil {
		c.Failf("listing", "walk: %v", err)
	}
	check("after a walk")
	for i := 0; i < 50; i++ {
		name := fmt.Sprintf("%s%d", c.PickS("new.", "m1.new", "d.d."), 100+i)
		if a := n.put(name, 0, 1, []byte("value")); !a.ok {
			c.Failf("listing", "value of %q was answered %+v", name, a)
		}
		want = append(want, name)
	}
	sort.Strings(want)
	check("after some more values")
	n.stop()
	n = start(dir, cf)
	if err := n.PopulateMetrics(context.Background()); err != nil {
		c.Failf("listing", "walk: %v", err)
	}
	check("after a restart")
	n.stop()
	c.R.Max("largest_listing", int64(len(want)))
	c.Sig("many", k, per)
	c.NonTrivial()
}

//
// C29, the part about the database
//

func c29(r *hk.Run) {
	r.Rule("several simultaneous starts of one database, with writes and queries in between, and restarts; non-trivial always; distinct by the number of starts and outcomes")
	perturb(4)
	r.Cases("starts", r.N(500, 10000), 4, func(c *hk.C) {
		cf := conf{Size: 128, Cap: 10, Files: 0, Buffer: c.Pick(0, 2), Workers: c.Range(1, 3), Handles: c.Pick(-1, 2)}
		dir := c.R.TempDir()
		defer os.RemoveAll(dir)
		db := files.New(dir, cf.options())
		n := &node{DB: db}
		end := int64(0)
		for round := c.Range(1, 4); round > 0; round-- {
			ctx, cancel := context.WithCancel(context.Background())
			k := c.Range(2, 5)
			type result struct {
				i   int
				err error
			}
			done := make(chan result, k)
			for i := 0; i < k; i++ {
				i := i
				go func() { done <- result{i, db.Run(ctx)} }()
			}
			// all but one fail at once
			for i := 0; i < k-1; i++ {
				if res := <-done; res.err == nil {
					c.Failf("start", "one of %d simultaneous starts returned without an error", k)
					cancel()
					return
				}
			}
			// and the one is not disturbed
			for i := c.Range(1, 5); i > 0; i-- {
				end++
				v := value{end - 1, end, c.Bytes(20)}
				if a := n.put("m", v.start, v.end, v.data); !a.ok || a.err != nil {
					c.Failf("start", "write after failed starts: %v", a)
				}
				got, err := n.read("m", maxTime)
				if err != nil || len(got) == 0 || !got[0].same(v) || int64(len(got)) != end {
					c.Failf("start", "query after failed starts: %v %v", got, err)
				}
				if err := db.Run(ctx); err == nil {
					c.Failf("start", "another start returned without an error")
				}
			}
			select {
			case res := <-done:
				c.Failf("start", "the running database was disturbed: %v", res.err)
			default:
			}
			cancel()
			if res := <-done; res.err != nil {
				c.Failf("start", "stopping: %v", res.err)
			}
			c.Count("starts", int64(k))
			c.Sig(k, end)
		}
		c.NonTrivial()
		c.Sample(fmt.Sprintf("%+v: %d values", cf, end))
	})
	r.Require("starts", 100)
}

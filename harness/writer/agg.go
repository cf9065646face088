package main

import (
	"context"
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/data/load"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/internal/zzverif/hk"
)

var ctx = context.Background()

// rec is a captured record with private copies of everything in it.
type rec struct {
	metric string
	data.Record
	vals []float64 // of list distributions
}

func copyRec(metric string, in data.Record) rec {
	out := rec{metric: string(append([]byte(nil), metric...)), Record: in}
	out.Distribution = append([]byte(nil), in.Distribution...)
	if in.MinId != nil {
		out.MinId = append([]byte{}, in.MinId...)
	}
	if in.MaxId != nil {
		out.MaxId = append([]byte{}, in.MaxId...)
	}
	return out
}

// add is one value handed to the writer.
type add struct {
	metric string
	val    float64
	id     string
	hasID  bool
}

func finite(v float64) bool { return !math.IsNaN(v) && !math.IsInf(v, 0) }

// world is one writer with what was done to it.
type world struct {
	c      *hk.C
	w      *data.Writer
	list   bool
	plug   PlugParams
	params dist.Params
}

func newWorld(c *hk.C, list bool, jitter int, fail func(int64) bool) *world {
	wd := &world{c: c, list: list}
	if list {
		wd.plug = newPlug(jitter, fail)
		wd.params = wd.plug
	} else {
		wd.params = tdigest.Params{Compression: float64(c.Pick(5, 20, 100))}
	}
	wd.w = data.NewWriter(wd.params)
	return wd
}

// wellFormed checks everything that can be told from the record alone.
func (wd *world) wellFormed(r *rec) string {
	if r.EndTime < r.StartTime {
		return fmt.Sprintf("ends at %d before its start %d", r.EndTime, r.StartTime)
	}
	if r.Merged != 1 {
		return fmt.Sprintf("merged count %d", r.Merged)
	}
	if r.Observations < 1 {
		return fmt.Sprintf("%d observations", r.Observations)
	}
	if r.Kind != wd.params.Kind() {
		return fmt.Sprintf("kind %q instead of %q", r.Kind, wd.params.Kind())
	}
	if !finite(r.Min) || !finite(r.Max) || r.Min > r.Max {
		return fmt.Sprintf("min %v max %v", r.Min, r.Max)
	}
	d, err := load.Load(ctx, r.Record)
	if err != nil {
		return fmt.Sprintf("distribution does not decode: %v", err)
	}
	if d.Len() != r.Observations {
		return fmt.Sprintf("%d observations but a distribution of %d", r.Observations, d.Len())
	}
	if wd.list {
		r.vals, err = listValues(r.Distribution)
		if err != nil {
			return err.Error()
		}
		min, max := r.vals[0], r.vals[0]
		for _, v := range r.vals {
			min, max = math.Min(min, v), math.Max(max, v)
		}
		if min != r.Min || max != r.Max {
			return fmt.Sprintf("min %v max %v, but the distribution has %v to %v", r.Min, r.Max, min, max)
		}
		return ""
	}
	if math.Abs(r.Min) < 1e9 && math.Abs(r.Max) < 1e9 {
		tol := 1e-4 * (1 + math.Abs(r.Min) + math.Abs(r.Max))
		for _, q := range []float64{0, .1, .5, .9, 1} {
			if v := d.Query(q); !(v >= r.Min-tol && v <= r.Max+tol) {
				return fmt.Sprintf("quantile %v is %v outside of %v to %v", q, v, r.Min, r.Max)
			}
		}
	}
	return ""
}

// capture captures everything, the callback returning false after some.
func (wd *world) capture(stop int) []rec {
	var out []rec
	wd.w.Capture(ctx, func(ctx context.Context, metric string, r data.Record) bool {
		out = append(out, copyRec(metric, r))
		return len(out) != stop
	})
	return out
}

func (wd *world) iterate(stop int) []rec {
	var out []rec
	wd.w.Iterate(ctx, func(ctx context.Context, metric string, r data.Record) bool {
		out = append(out, copyRec(metric, r))
		return len(out) != stop
	})
	return out
}

// addAll adds from n threads, scribbling over the ids afterwards.
func (wd *world) addAll(adds []add, n int) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for t := 0; t < n; t++ {
		wg.Add(1)
		go func(t int) {
			defer wg.Done()
			buf := make([]byte, 0, 64)
			<-start
			for i := t; i < len(adds); i += n {
				a := adds[i]
				if !a.hasID {
					wd.w.Add(ctx, a.metric, a.val, nil)
					continue
				}
				buf = append(buf[:0], a.id...)
				wd.w.Add(ctx, a.metric, a.val, buf)
				for j := range buf {
					buf[j] ^= 0x5a
				}
			}
			hk.Progress()
		}(t)
	}
	close(start)
	wg.Wait()
}

var odd = []string{"", " ", "a", "A", "a.b.c", "a.b", "\x00", "a\x00b", "\xff\xfe", "日本", "a/../b", "\n", strings.Repeat("x", 3000)}

func makeMetrics(c *hk.C, n int) []string {
	out := make([]string, n)
	for i := range out {
		switch c.Intn(3) {
		case 0:
			out[i] = fmt.Sprintf("m%d", i)
		case 1:
			out[i] = fmt.Sprintf("%s%d", odd[c.Intn(len(odd))], i)
		case 2:
			out[i] = fmt.Sprintf("%d%s", i, odd[c.Intn(len(odd))])
		}
	}
	if c.P(1, 3) {
		out[0] = odd[c.Intn(len(odd))]
	}
	return out
}

// makeValue gives values with plenty of ties and extremes.
func makeValue(c *hk.C, style int) float64 {
	switch style {
	case 0: // few values
		return float64(c.Range(-2, 2))
	case 1:
		return c.Float()*2e6 - 1e6
	case 2: // all of the range
		for {
			v := math.Float64frombits(c.U64())
			if finite(v) {
				return v
			}
		}
	case 3: // edges
		edges := []float64{0, math.Copysign(0, -1), math.MaxFloat64, -math.MaxFloat64, 5e-324, -5e-324, 1, -1, 1e-300, math.MaxFloat32, 1 << 53}
		return edges[c.Intn(len(edges))]
	case 4: // all negative
		return -1 - c.Float()*100
	}
	return 1 + c.Float()
}

var bad = []float64{math.NaN(), math.Inf(1), math.Inf(-1)}

func makeAdds(c *hk.C, metrics []string, n, tag int) []add {
	style := c.Intn(6)
	order := c.Intn(4)
	out := make([]add, n)
	for i := range out {
		v := makeValue(c, style)
		if c.P(1, 12) {
			v = bad[c.Intn(3)]
		}
		a := add{metric: metrics[c.Intn(len(metrics))], val: v}
		switch {
		case c.P(1, 8):
		case c.P(1, 16):
			a.hasID = true
		default:
			a.hasID = true
			a.id = fmt.Sprintf("%d/%d/%x", tag, i, c.Bytes(c.Intn(20)))
		}
		out[i] = a
	}
	switch order {
	case 0:
		sort.SliceStable(out, func(i, j int) bool { return out[i].val < out[j].val })
	case 1:
		sort.SliceStable(out, func(i, j int) bool { return out[i].val > out[j].val })
	}
	return out
}

// expect groups the finite values by metric.
func expect(adds []add) map[string][]add {
	out := make(map[string][]add)
	for _, a := range adds {
		if finite(a.val) {
			out[a.metric] = append(out[a.metric], a)
		}
	}
	return out
}

func sameValues(got []float64, want []add) bool {
	if len(got) != len(want) {
		return false
	}
	g := append([]float64(nil), got...)
	w := make([]float64, len(want))
	for i := range want {
		w[i] = want[i].val
	}
	sort.Float64s(g)
	sort.Float64s(w)
	for i := range g {
		if g[i] != w[i] {
			return false
		}
	}
	return true
}

// conserve compares what one window captured with what was added in it.
func (wd *world) conserve(got []rec, adds []add, stopped bool) {
	c := wd.c
	want := expect(adds)
	seen := make(map[string]bool)
	for i := range got {
		r := &got[i]
		if seen[r.metric] {
			c.Failf("duplicate", "%q was captured twice in one window", r.metric)
			return
		}
		seen[r.metric] = true
		if msg := wd.wellFormed(r); msg != "" {
			c.Failf("malformed", "record of %q: %s", r.metric, msg)
			return
		}
		w := want[r.metric]
		if int64(len(w)) != r.Observations {
			c.Failf("count", "%q received %d finite values, the record has %d", r.metric, len(w), r.Observations)
			return
		}
		if wd.list && !sameValues(r.vals, w) {
			c.Failf("values", "%q: the record has other values than were added", r.metric)
			return
		}
		c.Count("observations", r.Observations)
	}
	c.Count("records", int64(len(got)))
	if stopped {
		return
	}
	for m, w := range want {
		if !seen[m] {
			c.Failf("lost", "%q received %d finite values and has no record", m, len(w))
			return
		}
	}
}

// extremes compares the extremes of one window with what was added in it.
func (wd *world) extremes(got []rec, adds []add) {
	c := wd.c
	want := expect(adds)
	for _, r := range got {
		w := want[r.metric]
		if len(w) == 0 {
			c.Failf("alien", "%q has a record but received nothing", r.metric)
			return
		}
		min, max := w[0].val, w[0].val
		for _, a := range w {
			min, max = math.Min(min, a.val), math.Max(max, a.val)
		}
		if r.Min != min || r.Max != max {
			c.Failf("extremes", "%q: %v to %v instead of %v to %v", r.metric, r.Min, r.Max, min, max)
			return
		}
		for _, x := range []struct {
			name string
			val  float64
			id   []byte
		}{{"minimum", r.Min, r.MinId}, {"maximum", r.Max, r.MaxId}} {
			ok := false
			ties := 0
			for _, a := range w {
				if a.val == x.val {
					ties++
					if a.id == string(x.id) {
						ok = true
					}
				}
			}
			if !ok {
				c.Failf("identity", "%q: the %s %v has the identifier %q, that no add of this value had", r.metric, x.name, x.val, x.id)
				return
			}
			c.Count("identities", 1)
			if ties > 1 {
				c.Count("identities_tied", 1)
			}
		}
	}
}

//
// C12 and C13: phases of adding, with captures in between
//

func phases(c *hk.C, extremes bool) {
	list := c.P(2, 3)
	jitter := c.Pick(0, 8, 32, 64)
	wd := newWorld(c, list, jitter, nil)
	metrics := makeMetrics(c, c.Pick(1, 1, 2, 5, 30))
	threads := c.Pick(1, 2, 4, 8, 16)
	n := c.Range(1, 6)
	seq := c.P(1, 8) // tiny windows
	clash := atomic.LoadInt64(&plugClash)
	captured := 0
	var pending []add
	for p := 0; p < n && !c.Failed(); p++ {
		k := c.Pick(0, 1, 2, 10, 60, 300)
		if seq {
			k = c.Range(0, 3)
		}
		adds := makeAdds(c, metrics, k, p)
		if extremes && c.P(1, 12) {
			bigIDs(c, adds)
		}
		pending = append(pending, adds...)

		// live iterations must not change anything.
		var stopIter chan struct{}
		var iters sync.WaitGroup
		if c.P(1, 3) {
			stopIter = make(chan struct{})
			iters.Add(1)
			go func() {
				defer iters.Done()
				for {
					select {
					case <-stopIter:
						return
					default:
						wd.iterate(0)
					}
				}
			}()
		}
		wd.addAll(adds, threads)
		if stopIter != nil {
			close(stopIter)
			iters.Wait()
			c.Count("phases_with_iterations", 1)
		}
		if p < n-1 && c.P(1, 4) {
			continue // goes into the next capture
		}

		var got []rec
		stopped := false
		switch c.Intn(6) {
		case 0: // captures that race with each other share the data
			m := c.Range(2, 4)
			parts := make([][]rec, m)
			var wg sync.WaitGroup
			for i := 0; i < m; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					parts[i] = wd.capture(0)
				}(i)
			}
			wg.Wait()
			for _, part := range parts {
				got = append(got, part...)
			}
			c.Count("overlapping_captures", 1)
		case 1:
			stop := c.Range(1, 3)
			got = wd.capture(stop)
			stopped = len(got) == stop
			if len(got) > stop {
				c.Failf("stop", "the capture went on after the callback stopped it")
			}
		case 2:
			if before := wd.iterate(0); true {
				wd.conserve(before, pending, false)
			}
			got = wd.capture(0)
		default:
			got = wd.capture(0)
		}
		if extremes {
			wd.extremes(got, pending)
		} else {
			wd.conserve(got, pending, stopped)
		}
		captured += len(got)
		pending = nil
		given := make(map[string]bool)
		for _, r := range got {
			given[r.metric] = true
		}
		for _, r := range wd.capture(0) {
			if !stopped || given[r.metric] {
				c.Failf("twice", "a capture right after another gave %q again", r.metric)
			}
		}
	}
	if got := atomic.LoadInt64(&plugClash); got != clash {
		c.Failf("unsynchronized", "a distribution was used by two threads at once")
	}
	if captured > 0 {
		c.NonTrivial()
	}
	c.Sig(list, jitter, len(metrics), threads, n, seq, captured, c.Intn(1<<20))
	c.Sample(map[string]interface{}{"list": list, "metrics": len(metrics), "threads": threads, "phases": n, "captured_records": captured})
	c.Count("captured", int64(captured))
}

// tagged values carry who added them, so that duplicates can be told.
func tagged(thread, i int) float64 { return float64(thread)*1e7 + float64(i) + 1 }

// storm adds, captures and iterates all at once.
func storm(c *hk.C, withFail bool) {
	list := c.P(3, 4)
	jitter := c.Pick(0, 8, 32, 64)
	var fail func(int64) bool
	if withFail {
		list = true
		every := int64(c.Range(1, 4))
		if c.P(1, 3) {
			fail = func(n int64) bool { return true }
		} else {
			fail = func(n int64) bool { return n%every == 0 }
		}
	}
	wd := newWorld(c, list, jitter, fail)
	nm := c.Pick(1, 2, 6)
	threads := c.Pick(1, 2, 4, 8)
	per := c.Pick(30, 150, 600)
	caps := c.Pick(1, 1, 2, 3)
	iters := c.Pick(0, 1, 2)

	var wg, bg sync.WaitGroup
	var stop int32
	start := make(chan struct{})
	done := make(chan struct{})
	for t := 0; t < threads; t++ {
		wg.Add(1)
		go func(t int) {
			defer wg.Done()
			<-start
			var buf []byte
			for i := 0; i < per; i++ {
				v := tagged(t, i)
				buf = append(buf[:0], fmt.Sprint(v)...)
				// the metric is told from the value.
				wd.w.Add(ctx, fmt.Sprintf("m%d", (t+i)%nm), v, buf)
				for j := range buf {
					buf[j] = '#'
				}
			}
			hk.Progress()
		}(t)
	}
	metricOf := func(v float64) (string, bool) {
		t, i := int((v-1)/1e7), int(v-1)%10000000
		return fmt.Sprintf("m%d", (t+i)%nm), t >= 0 && t < threads && i >= 0 && i < per
	}
	check := func(who string, r *rec) {
		if msg := wd.wellFormed(r); msg != "" {
			c.Failf("malformed", "%s: record of %q: %s", who, r.metric, msg)
			return
		}
		for _, v := range r.vals {
			if m, ok := metricOf(v); !ok || m != r.metric {
				c.Failf("alien", "%s: record of %q holds %v, that was added to %q", who, r.metric, v, m)
				return
			}
		}
		if string(r.MinId) != fmt.Sprint(r.Min) || string(r.MaxId) != fmt.Sprint(r.Max) {
			c.Failf("identity", "%s: record of %q: identifiers %q and %q for %v and %v", who, r.metric, r.MinId, r.MaxId, r.Min, r.Max)
		}
	}
	got := make([][]rec, caps+1)
	for i := 0; i < caps; i++ {
		bg.Add(1)
		go func(i int) {
			defer bg.Done()
			<-start
			for atomic.LoadInt32(&stop) == 0 {
				new := wd.capture(0)
				for j := range new {
					check("capture", &new[j])
				}
				got[i] = append(got[i], new...)
				plugYield(32)
			}
		}(i)
	}
	var iterated int64
	for i := 0; i < iters; i++ {
		bg.Add(1)
		go func() {
			defer bg.Done()
			<-start
			for atomic.LoadInt32(&stop) == 0 {
				new := wd.iterate(0)
				for j := range new {
					check("iteration", &new[j])
				}
				atomic.AddInt64(&iterated, int64(len(new)))
			}
		}()
	}
	go func() {
		wg.Wait()
		atomic.StoreInt32(&stop, 1)
		bg.Wait()
		close(done)
	}()
	clash := atomic.LoadInt64(&plugClash)
	close(start)
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		c.Failf("blocked", "adding, capturing and iterating did not finish")
		return
	}
	final := wd.capture(0)
	for j := range final {
		check("capture", &final[j])
	}
	got[caps] = final

	seen := make(map[float64]bool)
	total, records := int64(0), 0
	for _, part := range got {
		for _, r := range part {
			records++
			total += r.Observations
			for _, v := range r.vals {
				if seen[v] {
					c.Failf("duplicate", "the value %v was captured twice", v)
					return
				}
				seen[v] = true
			}
		}
	}
	if total > int64(threads*per) {
		c.Failf("duplicate", "%d values were added and %d captured", threads*per, total)
	}
	if got := atomic.LoadInt64(&plugClash); got != clash {
		c.Failf("unsynchronized", "a distribution was used by two threads at once")
	}
	if records > 1 {
		c.NonTrivial()
	}
	c.Sig(list, jitter, nm, threads, per, caps, iters, total, records)
	c.Count("storm_adds", int64(threads*per))
	c.Count("storm_captured", total)
	c.Count("storm_records", int64(records))
	c.Count("storm_iterated", iterated)
	if wd.plug.failed != nil {
		c.Count("creations_failed", atomic.LoadInt64(wd.plug.failed))
	}
}

func c12(r *hk.Run) {
	r.Rule("phases of concurrent adds to random metrics, NaN and infinite values among them, each followed by one capture, several racing captures or none; every record compared with the exact multiset added. storms of overlapping adds and captures look for values captured twice or under another metric. non-trivial if records were captured; distinct by shape and amounts")
	r.Cases("phases", r.N(6000, 300000), 4, func(c *hk.C) { phases(c, false) })
	r.Cases("storm", r.N(250, 10000), 2, func(c *hk.C) { storm(c, false) })
	r.Cases("many", r.N(3, 30), 1, func(c *hk.C) { many(c) })
	r.Require("observations", 20000)
	r.Require("overlapping_captures", 100)
	r.Require("storm_records", 500)
	r.Require("most_metrics", 1<<16)
	r.Require("most_observations", 1<<20)
}

// many adds to many metrics, and much to one.
func many(c *hk.C) {
	list := c.Index%3 != 2
	wd := newWorld(c, list, 0, nil)
	threads := c.Range(1, 4)
	for window := 0; window < 2-c.Index%3%2 && !c.Failed(); window++ {
		var adds []add
		name := func(i int) string { return fmt.Sprintf("m%d.%x", i%97, i) }
		k := 0
		switch c.Index % 3 {
		case 0:
			k = c.Range(66000, 80000)
			for i := 0; i < k; i++ {
				adds = append(adds, add{metric: name(i), val: float64(i), hasID: true, id: name(i)})
			}
			c.R.Max("most_metrics", int64(k))
		default:
			if k = c.Range(1<<20, 1<<20+99999); !list {
				k = c.Range(30000, 60000)
			}
			for i := 0; i < k; i++ {
				v := float64(i) - 1000
				if i%1000 == 7 {
					v = bad[i%3]
				}
				adds = append(adds, add{metric: "one", val: v})
			}
			c.R.Max("most_observations", int64(k))
		}
		wd.addAll(adds, threads)
		got := wd.capture(0)
		wd.conserve(got, adds, false)
		wd.extremes(got, adds)
		hk.Progress()
	}
	c.NonTrivial()
	c.Sig("many", list, threads, c.Index)
}

func c13(r *hk.Run) {
	r.Rule("phases of concurrent adds with ties, edges of the float range and identifiers that are changed after the call; extremes and identifiers of every captured record compared with the adds. non-trivial if records were captured; distinct by shape and amounts")
	r.Cases("phases", r.N(7000, 300000), 4, func(c *hk.C) { phases(c, true) })
	r.Require("identities", 10000)
	r.Require("identities_tied", 500)
}

func c14(r *hk.Run) {
	r.Rule("storms of threads that add, capture and iterate at once, creating distributions failing in some; every record handed out is decoded and checked against itself. callbacks add to the writer while they hold a record. non-trivial if several records were captured; distinct by the amounts")
	r.Cases("storm", r.N(400, 15000), 3, func(c *hk.C) { storm(c, false) })
	r.Cases("failing", r.N(200, 8000), 3, func(c *hk.C) { storm(c, true) })
	r.Cases("reentrant", r.N(1500, 40000), 4, reentrant)
	r.Require("storm_records", 1000)
	r.Require("storm_iterated", 1000)
	r.Require("creations_failed", 1000)
}

// reentrant adds to the writer from inside of a callback, directly and from
// another thread the callback waits for.
func reentrant(c *hk.C) {
	wd := newWorld(c, c.P(1, 2), c.Pick(0, 32), nil)
	metrics := makeMetrics(c, c.Range(1, 5))
	adds := makeAdds(c, metrics, c.Range(1, 40), 0)
	wd.addAll(adds, c.Range(1, 3))
	direct, iterate := c.P(1, 2), c.P(1, 2)
	done := make(chan struct{})
	inner := 0
	go func() {
		defer close(done)
		fn := func(ctx context.Context, metric string, r data.Record) bool {
			first := copyRec(metric, r)
			for _, m := range append([]string{metric}, metrics...) {
				if direct {
					wd.w.Add(ctx, m, 7, nil)
				} else {
					ch := make(chan struct{})
					go func() { wd.w.Add(ctx, m, 7, nil); close(ch) }()
					<-ch
				}
				inner++
			}
			wd.iterate(2)
			second := copyRec(metric, r)
			if string(first.Distribution) != string(second.Distribution) || string(first.MinId) != string(second.MinId) {
				c.Failf("changed", "a record changed while its callback used it")
			}
			if msg := wd.wellFormed(&second); msg != "" {
				c.Failf("malformed", "record of %q: %s", metric, msg)
			}
			return inner < 200
		}
		if iterate {
			wd.w.Iterate(ctx, fn)
		} else {
			wd.w.Capture(ctx, fn)
		}
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		c.Failf("blocked", "adding from a callback blocks")
		return
	}
	if inner > 0 {
		c.NonTrivial()
		c.Count("reentrant_adds", int64(inner))
	}
	// an iteration removes nothing: all is in the next capture.
	if iterate {
		total := int64(0)
		for _, r := range wd.capture(0) {
			total += r.Observations
		}
		want := int64(inner)
		for _, a := range adds {
			if finite(a.val) {
				want++
			}
		}
		if total != want {
			c.Failf("removed", "%d finite values were added, the capture after an iteration has %d", want, total)
		}
	}
	c.Sig(len(metrics), len(adds), direct, iterate, inner)
}

//
// C15
//

func c15(r *hk.Run) {
	r.Rule("sequences of captures, with none, some or concurrent adds in between, with threads that add during captures, and of captures that overlap; the windows of all records compared with each other and with the clock around the calls. non-trivial if at least two windows were seen; distinct by shape")
	r.Cases("tile", r.N(4000, 150000), 4, tile)
	r.Cases("overlap", r.N(400, 15000), 3, overlap)
	r.Require("windows", 3000)
	r.Require("windows_adjacent", 2000)
	r.Require("overlap_windows", 500)
}

func windowOf(c *hk.C, got []rec) (start, end int64, ok bool) {
	for i, r := range got {
		if i == 0 {
			start, end = r.StartTime, r.EndTime
		} else if r.StartTime != start || r.EndTime != end {
			c.Failf("window", "records of one capture have the windows %d-%d and %d-%d", start, end, r.StartTime, r.EndTime)
			return 0, 0, false
		}
	}
	return start, end, len(got) > 0
}

func now() int64 { return time.Now().UnixNano() }

// tile captures one after another.
func tile(c *hk.C) {
	wd := newWorld(c, c.P(1, 2), c.Pick(0, 16), nil)
	metrics := makeMetrics(c, c.Range(1, 6))
	var first, windows int64
	// where the next window starts: exactly or in a range.
	var lo, hi int64
	used := false

	if c.P(1, 4) {
		if got := wd.capture(0); len(got) != 0 {
			c.Failf("alien", "an unused writer gave a record")
		}
		wd.iterate(0)
	}

	// some cases have threads adding all of the time.
	var stop int32
	var bg sync.WaitGroup
	busy := c.P(1, 3)
	if busy {
		first = now()
		for t := 0; t < c.Range(1, 2); t++ {
			bg.Add(1)
			go func() {
				defer bg.Done()
				for i := 0; atomic.LoadInt32(&stop) == 0 && i < 4000; i++ {
					wd.w.Add(ctx, metrics[i%len(metrics)], float64(i), nil)
				}
			}()
		}
		used = true
		lo = first
	}
	n := c.Range(2, 10)
	for i := 0; i < n && !c.Failed(); i++ {
		if !busy && !used {
			lo = now()
		}
		k := c.Pick(0, 1, 3, 20)
		adds := makeAdds(c, metrics, k, i)
		wd.addAll(adds, c.Range(1, 3))
		if len(expect(adds)) > 0 && !used {
			used = true
		}
		if c.P(1, 3) {
			time.Sleep(time.Duration(c.Intn(300)) * time.Microsecond)
		}
		if c.P(1, 3) {
			t0 := now()
			s, e, ok := windowOf(c, wd.iterate(0))
			t1 := now()
			if ok && (s < lo || (hi != 0 && s > hi) || e < t0 || e > t1) {
				c.Failf("iterate", "an iteration between %d and %d gave the window %d-%d; it should start in %d-%d", t0, t1, s, e, lo, hi)
			}
		}
		t0 := now()
		var got []rec
		if c.P(1, 6) {
			got = wd.capture(1)
		} else {
			got = wd.capture(0)
		}
		t1 := now()
		if !used && !busy {
			continue
		}
		if hi == 0 {
			hi = t0 // the first window starts before the first capture
			if busy {
				hi = t1
			}
		}
		if s, e, ok := windowOf(c, got); ok {
			windows++
			if s < lo || s > hi {
				c.Failf("gap", "capture %d starts at %d instead of in %d-%d (off by %d)", i, s, lo, hi, s-lo)
			}
			if lo == hi {
				c.Count("windows_adjacent", 1)
			}
			if e < s || e < t0 || e > t1 {
				c.Failf("end", "capture %d ends at %d, it began at %d, was called at %d and returned at %d", i, e, s, t0, t1)
			}
			lo, hi = e, e
		} else if busy && windows == 0 {
			// nothing may have been added before this capture.
			hi = 0
		} else {
			lo, hi = t0, t1 // a window without records ended somewhere here
		}
	}
	atomic.StoreInt32(&stop, 1)
	bg.Wait()
	if windows > 1 {
		c.NonTrivial()
	}
	c.Sig(len(metrics), busy, n, windows, c.Intn(1<<16))
	c.Count("windows", windows)
}

// overlap captures from several threads at once.
func overlap(c *hk.C) {
	wd := newWorld(c, true, c.Pick(0, 16, 48), nil)
	caps := c.Range(2, 4)
	threads := c.Range(1, 3)
	per := c.Pick(100, 500)
	var wg, bg sync.WaitGroup
	var stop int32
	began := now()
	for t := 0; t < threads; t++ {
		wg.Add(1)
		go func(t int) {
			defer wg.Done()
			for i := 0; i < per; i++ {
				wd.w.Add(ctx, fmt.Sprintf("m%d", i%3), tagged(t, i), nil)
			}
		}(t)
	}
	type call struct {
		t0, t1 int64
		got    []rec
	}
	calls := make([][]call, caps)
	for i := 0; i < caps; i++ {
		bg.Add(1)
		go func(i int) {
			defer bg.Done()
			for atomic.LoadInt32(&stop) == 0 {
				t0 := now()
				got := wd.capture(0)
				calls[i] = append(calls[i], call{t0, now(), got})
			}
		}(i)
	}
	wg.Wait()
	atomic.StoreInt32(&stop, 1)
	bg.Wait()
	t0 := now()
	calls = append(calls, []call{{t0, 0, wd.capture(0)}})
	calls[caps][0].t1 = now()

	type window struct{ s, e int64 }
	var ws []window
	seen := make(map[float64]bool)
	for _, l := range calls {
		for _, cl := range l {
			s, e, ok := windowOf(c, cl.got)
			if !ok {
				continue
			}
			if e < s || e < cl.t0 || e > cl.t1 || s < began {
				c.Failf("end", "window %d-%d of a capture from %d to %d", s, e, cl.t0, cl.t1)
				return
			}
			ws = append(ws, window{s, e})
			for j := range cl.got {
				vals, _ := listValues(cl.got[j].Distribution)
				for _, v := range vals {
					if seen[v] {
						c.Failf("twice", "overlapping captures both handed out %v", v)
						return
					}
					seen[v] = true
				}
			}
		}
	}
	sort.Slice(ws, func(i, j int) bool {
		if ws[i].s != ws[j].s {
			return ws[i].s < ws[j].s
		}
		return ws[i].e < ws[j].e
	})
	for i := 1; i < len(ws); i++ {
		if ws[i].s < ws[i-1].e {
			c.Failf("overlap", "the windows %d-%d and %d-%d overlap", ws[i-1].s, ws[i-1].e, ws[i].s, ws[i].e)
			return
		}
	}
	if len(ws) > 1 {
		c.NonTrivial()
	}
	c.Sig(caps, threads, per, len(ws))
	c.Count("overlap_windows", int64(len(ws)))
}

package main

import (
	"context"
	"fmt"
	"math"
	"reflect"
	"sort"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/data/load"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/draw"
	"github.com/vivint/rothko/internal/zzverif/hk"
	"github.com/vivint/rothko/merge"
)

var ctx = context.Background()

func makeRecord(c *hk.C, comp float64, vals []float64) data.Record {
	d, err := tdigest.Params{Compression: comp}.New()
	if err != nil {
		panic(err)
	}
	for _, v := range vals {
		d.Observe(v)
	}
	r := data.Record{
		Observations: int64(len(vals)),
		Distribution: d.Marshal(nil),
		Kind:         "tdigest",
		Merged:       int64(c.Pick(0, 1, 1, 2, 7)),
	}
	if len(vals) > 0 {
		r.Min, r.Max = minmax(vals)
	}
	return r
}

func cloneRecord(r data.Record) data.Record {
	r.Distribution = append([]byte(nil), r.Distribution...)
	r.MinId = append([]byte(nil), r.MinId...)
	r.MaxId = append([]byte(nil), r.MaxId...)
	return r
}

//
// C19
//

func c19(r *hk.Run) {
	r.Rule("sets of 1 to 12 records with random windows, counts, merge counts (also missing), extremes with ties, identifiers and t-digests of random compressions; the merged record compared field by field with what the inputs say. undecodable and unknown distributions, unusable parameters and empty input. non-trivial if at least two records were merged; distinct by the inputs")
	r.Cases("merge", r.N(20000, 800000), 8, mergeCase)
	r.Cases("broken", r.N(15000, 500000), 8, mergeBroken)
	r.Require("merged", 10000)
	r.Require("refused", 5000)
}

func mergeCase(c *hk.C) {
	n := c.Pick(1, 1, 2, 2, 3, 5, 12)
	comps := []float64{5, 20, 100, 1000}
	comp := comps[c.Intn(4)]
	style := c.Intn(8)
	base := int64(c.Range(-1000, 1000))
	var recs, before []data.Record
	var all []float64
	small := true
	for i := 0; i < n; i++ {
		k := c.Pick(0, 1, 1, 3, 20, 100)
		if i == 0 && k == 0 {
			k = 1
		}
		if c.P(1, 10) {
			style = c.Intn(8)
		}
		vals := makeVals(c, k, style)
		rc := comps[c.Intn(4)]
		if float64(k) > rc {
			small = false
		}
		r := makeRecord(c, rc, vals)
		r.StartTime = base + int64(c.Range(-50, 50))
		r.EndTime = r.StartTime + int64(c.Intn(60))
		if c.P(1, 10) {
			r.StartTime, r.EndTime = r.StartTime*1e15, r.EndTime*1e15
			if r.EndTime < r.StartTime {
				r.EndTime = r.StartTime
			}
		}
		if c.P(1, 4) { // what the record says need not be what the digest has
			r.Observations = int64(c.Pick(0, 1, 1000, 1<<40))
		}
		if c.P(1, 3) {
			r.Min, r.Max = float64(c.Range(-3, 0)), float64(c.Range(0, 3))
		}
		if c.P(4, 5) {
			r.MinId = []byte(fmt.Sprintf("min %d", i))
		}
		if c.P(4, 5) {
			r.MaxId = []byte(fmt.Sprintf("max %d", i))
		}
		all = append(all, vals...)
		recs = append(recs, r)
	}
	if float64(len(all)) > comp {
		small = false
	}
	for _, r := range recs {
		before = append(before, cloneRecord(r))
	}
	out, err := merge.Merge(ctx, merge.MergeOptions{Params: tdigest.Params{Compression: comp}, Records: recs})
	if err != nil {
		c.Failf("error", "merging %d records: %v", n, err)
		return
	}
	for i := range recs {
		a, b := recs[i], before[i]
		if string(a.MinId) != string(b.MinId) || string(a.MaxId) != string(b.MaxId) || string(a.Distribution) != string(b.Distribution) {
			c.Failf("modified", "merging modified the bytes of input %d", i)
			return
		}
		a.MinId, a.MaxId, a.Distribution, b.MinId, b.MaxId, b.Distribution = nil, nil, nil, nil, nil, nil
		if !reflect.DeepEqual(a, b) {
			c.Failf("modified", "merging modified input %d: %+v is %+v", i, b, a)
			return
		}
	}

	// the model
	start, end := int64(math.MaxInt64), int64(math.MinInt64)
	var obs, merged int64
	min, max := math.Inf(1), math.Inf(-1)
	for _, r := range before {
		if r.StartTime < start {
			start = r.StartTime
		}
		if r.EndTime > end {
			end = r.EndTime
		}
		obs += r.Observations
		if r.Merged == 0 {
			merged++
		} else {
			merged += r.Merged
		}
		min, max = math.Min(min, r.Min), math.Max(max, r.Max)
	}
	if out.StartTime != start || out.EndTime != end {
		c.Failf("window", "spans %d-%d instead of %d-%d", out.StartTime, out.EndTime, start, end)
	}
	if out.Observations != obs {
		c.Failf("observations", "%d instead of %d", out.Observations, obs)
	}
	if out.Merged != merged {
		c.Failf("merged", "%d instead of %d", out.Merged, merged)
	}
	if out.Min != min || out.Max != max {
		c.Failf("extremes", "%v to %v instead of %v to %v", out.Min, out.Max, min, max)
	}
	okMin, okMax := false, false
	for _, r := range before {
		okMin = okMin || r.Min == min && string(r.MinId) == string(out.MinId)
		okMax = okMax || r.Max == max && string(r.MaxId) == string(out.MaxId)
	}
	if !okMin || !okMax {
		c.Failf("identity", "the identifiers %q and %q belong to no input with the extremes %v and %v", out.MinId, out.MaxId, min, max)
	}
	if out.Kind != "tdigest" {
		c.Failf("kind", "%q", out.Kind)
	}
	d, err := load.Load(ctx, out)
	if err != nil {
		c.Failf("decode", "the merged distribution: %v", err)
		return
	}
	if len(all) > 0 {
		lo, hi := minmax(all)
		tol := 6e-6*(math.Abs(lo)+math.Abs(hi)+(hi-lo)) + 1e-36
		if !consistent(c, fmt.Sprintf("merged from %d records with compression %v", n, comp), d, all, small, tol) {
			return
		}
		if small {
			if !accurate(c, "merged: ", d, all, comp, 2, tol) {
				return
			}
			c.Count("exact", 1)
		}
	} else if d.Len() != 0 {
		c.Failf("length", "nothing merged is %d", d.Len())
	}
	if n > 1 {
		c.NonTrivial()
	}
	c.Count("merged", 1)
	c.Sig(n, comp, len(all), obs, merged, min, max, start, end)
	c.Sample(map[string]interface{}{"records": n, "compression": comp, "weight": len(all)})
}

func mergeBroken(c *hk.C) {
	var recs []data.Record
	n := c.Intn(5)
	for i := 0; i < n; i++ {
		r := makeRecord(c, 20, makeVals(c, c.Pick(0, 1, 20), c.Intn(8)))
		r.StartTime, r.EndTime = int64(i), int64(i+1)
		recs = append(recs, r)
	}
	params := tdigest.Params{Compression: 20}
	mustFail := n == 0
	switch c.Intn(5) {
	case 0:
		params.Compression = []float64{0, -1, math.NaN(), math.Inf(1), 1e-9, 1e12}[c.Intn(6)]
		mustFail = true
	case 1, 2:
		if n > 0 {
			recs[c.Intn(n)].Kind = c.PickS("", "unknown", "TDIGEST", "tdigest ", "\x00")
			mustFail = true
		}
	case 3:
		if n > 0 {
			r := &recs[c.Intn(n)]
			r.Distribution = r.Distribution[:c.Intn(len(r.Distribution))] // a part of it
			mustFail = true
		}
	case 4: // random damage, which may go unnoticed
		if n > 0 {
			r := &recs[c.Intn(n)]
			for i := 0; i < c.Range(1, 6); i++ {
				r.Distribution[c.Intn(len(r.Distribution))] ^= byte(1 << uint(c.Intn(8)))
			}
		}
	}
	for _, r := range recs {
		c.Logf("%q %x", r.Kind, r.Distribution)
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		c.Guard("merging broken records", func() {
			out, err := merge.Merge(ctx, merge.MergeOptions{Params: params, Records: recs})
			if err != nil {
				c.Count("refused", 1)
				return
			}
			if mustFail {
				c.Failf("accepted", "merging %d records that can not be merged gave no error: %+v", n, out)
				return
			}
			if d, err := load.Load(ctx, out); err == nil {
				d.Query(0.5)
				d.CDF(0)
			}
		})
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		c.Failf("hang", "merging broken records does not end")
	}
	if mustFail {
		c.NonTrivial()
	}
	c.Sig(n, mustFail, c.Intn(1<<30))
}

//
// C20
//

func c20(r *hk.Run) {
	r.Rule("windows of 1 to 3000 pixels and 1ns to all of time, records pushed newest first: adjacent, with gaps, overlapping, nested, of no length, longer than the window, before it and after it, on and next to pixel borders; every pixel's column compared with the exactly interpolated quantiles and rates of the records an independent model finds to overlap it. non-trivial if some pixels are covered; distinct by shape")
	r.Cases("columns", r.N(12000, 500000), 8, func(c *hk.C) { columns(c, false, false, false) })
	r.Cases("large", r.N(200, 8000), 8, func(c *hk.C) { columns(c, true, false, false) })
	r.Cases("heavy", r.N(400, 15000), 8, func(c *hk.C) { columns(c, false, true, false) })
	r.Cases("crowded", r.N(60, 1500), 8, func(c *hk.C) { columns(c, false, true, true) })
	r.Require("pixels_covered", 100000)
	r.Require("pixels_shared", 20000)
	r.Require("pixels_uncovered", 10000)
	r.Require("records_at_a_pixel", 1000)
}

type pushed struct {
	data.Record
	vals []float64
}

// pixels tells which pixels the record overlaps. a pixel p shows the times
// from now-(width-p)*size up to but without now-(width-p-1)*size, and the
// first one also what remains of the window before.
func pixels(now, dur int64, width int, start, end int64) (first, last int, ok bool) {
	size := dur / int64(width)
	if size < 1 {
		size = 1
	}
	if start >= now || end < now-dur {
		return 0, 0, false
	}
	at := func(t int64) int {
		if t >= now {
			return width - 1
		}
		if t < now-dur {
			t = now - dur
		}
		back := uint64(now - t) // 1 to dur
		n := back / uint64(size)
		if back%uint64(size) != 0 {
			n++
		}
		p := int64(width) - int64(n)
		if p < 0 {
			p = 0
		}
		return int(p)
	}
	return at(start), at(end), true
}

func columns(c *hk.C, large, heavy, crowded bool) {
	width := c.Pick(1, 2, 3, 10, 100, c.Range(1, 300))
	if large {
		width = c.Range(300, 3000)
	}
	var dur int64
	switch c.Intn(8) {
	case 0:
		dur = int64(c.Range(1, 2*width+5))
	case 1:
		dur = int64(width) * int64(c.Range(1, 50))
	case 2:
		dur = int64(c.U64() >> uint(1+c.Intn(60)))
	case 3:
		dur = math.MaxInt64
	case 4:
		dur = int64(24 * time.Hour)
	default:
		dur = int64(width)*int64(c.Range(1, 1000)) + int64(c.Intn(width+3))
	}
	if dur < 1 {
		dur = 1
	}
	now := int64(c.Range(-5, 5)) * int64(c.Pick(0, 1, 1000, 1e15))
	if c.P(1, 6) {
		now = 1600000000e9 + int64(c.Intn(1e9))
	}
	if now-dur > now || now < math.MinInt64+dur {
		now = math.MaxInt64 - int64(c.Intn(3))
		if dur == math.MaxInt64 && c.P(1, 2) {
			now = 0
		}
	}
	early := now - dur
	size := dur / int64(width)
	if size < 1 {
		size = 1
	}

	// places in time worth being at
	near := func() int64 {
		span := uint64(dur)
		switch c.Intn(8) {
		case 0:
			return now + int64(c.Range(-2, 2))
		case 1:
			return early + int64(c.Range(-2, 2))
		case 2: // at a pixel's border
			return now - size*int64(c.Intn(width+1)) + int64(c.Range(-1, 1))
		case 3:
			return early - int64(c.U64()%span)/3
		case 4:
			return now + int64(c.U64()%span)/3
		}
		return early + int64(c.U64()%span)
	}
	sane := func(t int64, back bool) int64 { // no wrapping around
		if now > 0 && t < math.MinInt64/2 && early > math.MinInt64/2 {
			return now
		}
		if now > math.MaxInt64/2 && t < 0 && early > 0 {
			return now
		}
		return t
	}

	comp := 1000.0
	if heavy {
		comp = float64(c.Pick(10, 20, 50))
	}
	n := c.Pick(0, 1, 2, 3, 5, 8)
	mode := c.Intn(4)
	if crowded { // very many records in a few pixels
		n, mode = c.Pick(100, 400, 1500), 3
		width = c.Range(1, 8)
		if c.P(1, 6) {
			n, width = 4000, c.Range(1, 2)
		}
		dur = int64(width) * int64(c.Range(3000, 1e6))
		now = 1600000000e9
		early, size = now-dur, dur/int64(width)
	}
	var recs []pushed
	cursor := sane(near(), false)
	for i := 0; i < n; i++ {
		var s, e int64
		switch mode {
		case 0: // anywhere
			s, e = sane(near(), false), sane(near(), false)
		case 1: // adjacent, backwards
			e = cursor
			s = e - int64(c.U64()%uint64(dur))/int64(c.Range(1, 8))
			if s > e {
				s = e
			}
			cursor = s
		case 2: // with gaps
			e = cursor
			s = e - int64(c.U64()%uint64(dur))/int64(c.Range(4, 30))
			if s > e {
				s = e
			}
			cursor = s - int64(c.U64()%uint64(dur))/int64(c.Range(4, 30))
			if cursor > s {
				cursor = s
			}
		case 3: // many within a few pixels
			p := size * int64(c.Intn(width+1))
			e = now - p + int64(c.Range(-3, 3))
			s = e - int64(c.Intn(int(math.Min(float64(4*size), 1e6))+1))
			if crowded {
				e = now - p - int64(c.U64()%uint64(size))
				s = e - int64(c.Intn(int(size)))
			}
		}
		if s > e {
			s, e = e, s
		}
		if e-s < 0 { // longer than a duration can be
			s = e - math.MaxInt64
		}
		k := c.Range(1, 12)
		if c.P(1, 3) {
			k = 1
		}
		if large && c.P(1, 4) {
			k = 60
		}
		if heavy {
			k = c.Range(30, 3000)
		}
		if crowded {
			k = c.Range(1, 5)
		}
		vals := make([]float64, k)
		v := (c.Float() - .5) * 2000
		for j := range vals {
			vals[j] = v + float64(c.Pick(0, 0, 1, 10))*c.Float()
		}
		r := makeRecord(c, comp, vals)
		r.Observations = int64(c.Range(1, 1<<30))
		r.StartTime, r.EndTime = s, e
		recs = append(recs, pushed{r, vals})
	}
	sort.SliceStable(recs, func(i, j int) bool { return recs[i].EndTime > recs[j].EndTime })
	if c.P(3, 4) { // strictly decreasing, as databases answer
		out := recs[:0]
		for i, r := range recs {
			if i == 0 || r.EndTime < out[len(out)-1].EndTime {
				out = append(out, r)
			}
		}
		recs = out
	}

	samples := c.Pick(1, 2, 3, 10, 30, 30, 200)
	m := merge.NewMerger(merge.MergerOptions{
		Samples: samples, Now: now, Duration: time.Duration(dur),
		Params: tdigest.Params{Compression: comp},
	})
	m.SetWidth(width)
	c.Logf("now %d duration %d width %d samples %d", now, dur, width, samples)
	for i, r := range recs {
		c.Logf("record %d: %d-%d observations %d merged %d values %v", i, r.StartTime, r.EndTime, r.Observations, r.Merged, r.vals)
	}
	for i, r := range recs {
		if err := m.Push(ctx, cloneRecord(r.Record)); err != nil {
			c.Failf("push", "record %d: %v", i, err)
			return
		}
	}
	cols, err := m.Finish(ctx)
	if err != nil {
		c.Failf("finish", "%v", err)
		return
	}

	over := make([]*draw.Column, width)
	for i := range cols {
		col := &cols[i]
		if col.X < 0 || col.W < 1 || col.X+col.W > width {
			c.Failf("outside", "column %d covers %d+%d of %d pixels", i, col.X, col.W, width)
			return
		}
		if len(col.Data) != samples+1 {
			c.Failf("samples", "column %d has %d values for %d samples", i, len(col.Data), samples)
			return
		}
		for p := col.X; p < col.X+col.W; p++ {
			if over[p] != nil {
				c.Failf("overlap", "two columns cover the pixel %d", p)
				return
			}
			over[p] = col
		}
	}
	firsts, lasts, oks := make([]int, len(recs)), make([]int, len(recs)), make([]bool, len(recs))
	for i, r := range recs {
		firsts[i], lasts[i], oks[i] = pixels(now, dur, width, r.StartTime, r.EndTime)
	}
	var lastSet []int
	var lastCol *draw.Column
	covered, shared := 0, 0
	for p := 0; p < width; p++ {
		var set []int
		for i := range recs {
			if oks[i] && firsts[i] <= p && p <= lasts[i] {
				set = append(set, i)
			}
		}
		col := over[p]
		if (col == nil) != (len(set) == 0) {
			c.Failf("cover", "%d records %v overlap the pixel %d, covered is %v", len(set), set, p, col != nil)
			return
		}
		if col == nil {
			continue
		}
		covered++
		c.R.Max("records_at_a_pixel", int64(len(set)))
		if len(set) > 1 {
			shared++
		}
		if col == lastCol && reflect.DeepEqual(set, lastSet) {
			continue
		}
		lastCol, lastSet = col, set

		var all []float64
		rate, zero := 0.0, 0
		for _, i := range set {
			r := recs[i]
			all = append(all, r.vals...)
			if r.EndTime <= r.StartTime {
				zero++
				continue
			}
			merged := float64(r.Merged)
			if merged == 0 {
				merged = 1
			}
			rate += float64(r.Observations) / merged / (float64(uint64(r.EndTime-r.StartTime)) / 1e9)
		}
		// a record of no length has no rate of its own.
		want := rate / float64(len(set))
		ok := nearly(col.ObsSec, want)
		if zero > 0 && zero < len(set) {
			ok = ok || nearly(col.ObsSec, rate/float64(len(set)-zero))
		}
		if !ok {
			c.Failf("rate", "pixel %d with the records %v has the rate %v instead of %v", p, set, col.ObsSec, want)
			return
		}
		sort.Float64s(all)
		for i, v := range col.Data {
			x := float64(i) / float64(samples) * float64(len(all)-1)
			j := int(x)
			exp := all[j]
			if j+1 < len(all) {
				exp += (all[j+1] - all[j]) * (x - float64(j))
			}
			tol := math.Abs(exp)/98 + 1e-4 + 1e-5*(all[len(all)-1]-all[0])
			if heavy {
				// only about as much as the digests keep
				lo, hi := all[0], all[len(all)-1]
				if !(v >= lo-math.Abs(lo)/98-1e-3 && v <= hi+math.Abs(hi)/98+1e-3) {
					c.Failf("curve", "pixel %d: quantile %d/%d is %v outside of %v to %v", p, i, samples, v, lo, hi)
					return
				}
			} else if math.IsNaN(v) || math.Abs(v-exp) > tol {
				c.Failf("curve", "pixel %d with the records %v: quantile %d/%d is %v instead of %v", p, set, i, samples, v, exp)
				return
			}
			if i > 0 && v < col.Data[i-1] {
				c.Failf("monotone", "pixel %d: quantile %d/%d is %v, after %v", p, i, samples, v, col.Data[i-1])
				return
			}
		}
		c.Count("curves", 1)
	}
	if covered > 0 {
		c.NonTrivial()
	}
	c.Count("pixels_covered", int64(covered))
	c.Count("pixels_shared", int64(shared))
	c.Count("pixels_uncovered", int64(width-covered))
	c.Sig(width, dur, now, len(recs), covered, shared)
	c.Sample(map[string]interface{}{"width": width, "duration": dur, "records": len(recs), "covered": covered, "shared": shared})
}

func nearly(a, b float64) bool {
	return !math.IsNaN(a) && !math.IsInf(a, 0) && math.Abs(a-b) <= 1e-9*(math.Abs(a)+math.Abs(b))
}

package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"image"
	"image/png"
	"net/http"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/vivint/rothko/api"
	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/data/load"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/draw"
	"github.com/vivint/rothko/draw/colors"
	"github.com/vivint/rothko/draw/graph"
	"github.com/vivint/rothko/internal/zzverif/hk"
	"github.com/vivint/rothko/merge"
)

func c25(r *hk.Run) {
	r.Rule("metrics with records next to, overlapping, far from and on the edges of the requested window, in a database in memory and in real data files; every field of the JSON answer compared with the request, the newest record before the requested time and the columns of the records that reach into the window, and the image pixel by pixel with a drawing of those columns and with their colours. failing storage. non-trivial if the window has columns; distinct by request and records")
	r.Cases("render", r.N(1500, 40000), 8, func(c *hk.C) { renderCase(c, false) })
	r.Cases("files", r.N(120, 4000), 4, func(c *hk.C) { renderCase(c, true) })
	r.Cases("defaults", r.N(40, 400), 8, defaultsCase)
	r.Cases("unreadable", r.N(400, 10000), 8, unreadableCase)
	r.Require("unreadable", 200)
	r.Require("json", 500)
	r.Require("images", 300)
	r.Require("columns", 1000)
	r.Require("later-records", 200)
	r.Require("foreign-encodings", 200)
	r.Require("failures", 100)
	r.Require("asked-before", 300)
	r.Require("longest_metric", 9000)
	r.Require("large", 5)
	r.Require("other-compression", 100)
}

type column struct {
	X, W   int
	Data   []float64
	ObsSec float64
}

type answerJSON struct {
	Metric   *string  `json:"metric"`
	Columns  []column `json:"columns"`
	Earliest *string  `json:"earliest"`
	Now      *int64   `json:"now"`
	Duration *int64   `json:"duration"`
	Width    *int     `json:"width"`
	Height   *int     `json:"height"`
	Padding  *int     `json:"padding"`
}

type window struct {
	metric      string
	now, dur    int64
	w, h, pad   int
	samples     int
	compression float64
}

// expected returns the measured graph and columns of a window.
func expected(win window, vals []value) (measured graph.Measured, cols []draw.Column, newest []byte, in int, err error) {
	opts := graph.MeasureOptions{Now: win.now, Duration: time.Duration(win.dur), Width: win.w, Height: win.h, Padding: win.pad}
	merger := merge.NewMerger(merge.MergerOptions{Samples: win.samples, Now: win.now, Duration: time.Duration(win.dur),
		Params: tdigest.Params{Compression: win.compression}})
	sort.SliceStable(vals, func(i, j int) bool { return vals[i].end > vals[j].end })
	for _, v := range vals {
		if v.end >= win.now {
			continue
		}
		var rec data.Record
		if err := rec.Unmarshal(append([]byte(nil), v.data...)); err != nil {
			return measured, nil, nil, 0, err
		}
		if newest == nil {
			newest = v.data
			var d dist.Dist
			if d, err = load.Load(ctx, rec); err != nil {
				return measured, nil, nil, 0, err
			}
			opts.Earliest = d
			var ok bool
			if measured, ok = graph.Measure(ctx, opts); !ok {
				return measured, nil, nil, 0, fmt.Errorf("too small")
			}
			merger.SetWidth(measured.Width)
		}
		if v.end < win.now-win.dur {
			continue
		}
		in++
		if err := merger.Push(ctx, rec); err != nil {
			return measured, nil, nil, 0, err
		}
	}
	if newest == nil {
		measured, ok := graph.Measure(ctx, opts)
		if !ok {
			return measured, nil, nil, 0, fmt.Errorf("too small")
		}
		return measured, nil, nil, 0, nil
	}
	cols, err = merger.Finish(ctx)
	return measured, cols, newest, in, err
}

// unreadableCase asks for windows in which a record can not be decoded.
func unreadableCase(c *hk.C) {
	const metric = "m"
	now, dur := int64(1500000000e9)+int64(c.Intn(1000)), int64(3600e9)
	n := c.Range(1, 12)
	step := dur / int64(c.Range(n, 20)) // so that all are in the window
	bad := c.Intn(n)
	db := newDB()
	end := now - 1
	what := ""
	for i := 0; i < n; i++ {
		buf := encodeRecord(makeRecord(end-step, end, 1000, 1, makeVals(c, c.Range(1, 20))))
		if i == bad {
			for try := 0; ; try++ {
				var rec data.Record
				out := damagedRecord(c, buf)
				if err := rec.Unmarshal(append([]byte(nil), out...)); err != nil {
					buf, what = out, fmt.Sprintf("record %d of %d fails with %v", i, n, err)
					break
				}
				if _, err := load.Load(ctx, rec); i == 0 && err != nil {
					buf, what = out, fmt.Sprintf("the newest record fails with %v", err)
					break
				}
				if try > 200 {
					return // there is nothing in it that could break
				}
			}
		}
		db.put(metric, value{end - step, end, buf})
		end -= step
	}
	srv := api.New(db, nil, api.Options{})
	for _, accept := range []string{"application/json", "image/png"} {
		req := newRequest("GET", "/api/render", params{"metric", metric, "now", itoa(now), "duration", time.Duration(dur).String()})
		req.Header.Set("Accept", accept)
		rec, ok := answer(c, srv, req, what)
		if !ok {
			return
		}
		if rec.Code < 500 || rec.Code > 599 {
			c.Failf("unreadable", "%s: the answer (%s) is %d %.100q", what, accept, rec.Code, rec.Body.String())
			return
		}
	}
	c.Count("unreadable", 1)
	c.NonTrivial()
	c.Sig(what)
}

func renderCase(c *hk.C, real bool) {
	win := window{
		metric: c.PickS("m", "some.metric", "a b&c=d", "é", "x%2ey", "<script>\"&", "\u2028"),
		now:    []int64{1500000000e9, 1000000, 1e15, 1500000000e9, 4e18}[c.Intn(5)] + int64(c.Intn(1000)),
		w:      c.Range(300, 600), h: c.Range(100, 260), pad: c.Pick(0, 0, 3, 20),
		samples: c.Pick(1, 2, 5, 30, 100), compression: 1000,
	}
	if !real {
		if c.P(1, 12) { // times before 1970
			win.now -= []int64{1500001000e9, 1e15 + 2e12}[c.Intn(2)]
		}
		if c.P(1, 10) {
			win.metric += strings.Repeat(c.PickS(".", "x", ".ab ", "é"), c.Pick(90, 300, 1200, 9000))
			c.R.Max("longest_metric", int64(len(win.metric)))
		}
		if c.P(1, 60) {
			win.w, win.h = c.Range(6000, 12000), c.Range(100, 130)
			if c.P(1, 4) {
				win.w, win.h = c.Range(300, 330), c.Range(6000, 12000)
			}
			c.Count("large", 1)
		}
	}
	if c.P(1, 12) {
		win.samples = c.Pick(600, 1000, 1024)
	}
	// enough values for the compression to matter, few enough for the columns
	// not to depend on the order in which the records are taken.
	many := c.P(1, 8)
	win.dur = []int64{day, 3600e9, 100000, 5000, 700}[c.Intn(5)]
	if win.now < 1e9 && win.dur > 100000 && c.P(1, 2) {
		win.dur = 5000
	}

	// lay out the records from late to early
	n := c.Pick(0, 1, 3, 8, 15)
	if many && n > 3 {
		n = 3
	}
	if n == 1 && c.P(1, 2) {
		win.compression = []float64{300, 400, 700.5}[c.Intn(3)]
		c.Count("other-compression", 1)
	}
	var vals []value
	end := win.now + []int64{win.dur / 3, 1, 0, -1, -2, -win.dur / 4, -win.dur + 1, -win.dur, -win.dur - 1, -2 * win.dur}[c.Intn(10)]
	later, total := 0, 0
	for i := 0; i < n; i++ {
		length := []int64{win.dur / 10, win.dur / 3, win.dur / 300, 1, 0, win.dur * 2, win.dur / 7}[c.Intn(7)]
		start := end - length
		if real && start >= end {
			start = end - 1
		}
		k := c.Pick(1, 1, 2, 5, 12)
		if many {
			k = c.Range(40, 70)
			if n == 1 {
				k *= 3
			}
		}
		total += k
		rec := makeRecord(start, end, 1000, int64(c.Pick(0, 1, 1, 4)), makeVals(c, k))
		if c.P(1, 2) {
			rec.MinId, rec.MaxId = []byte("min"), c.Bytes(5)
		}
		buf := encodeRecord(rec)
		if c.P(1, 3) {
			// the same record, encoded by something else
			switch c.Intn(3) {
			case 0: // a field that is not known
				buf = append(buf, 0xfa, 0x01, 0x03, 'x', 'y', 'z')
			case 1:
				buf = append([]byte{0xf8, 0x01, byte(c.Intn(128))}, buf...)
			case 2: // a field that is there twice
				if rec.StartTime != 0 {
					buf = append([]byte{0x08, 0x07}, buf...)
				}
			}
			c.Count("foreign-encodings", 1)
		}
		vals = append(vals, value{start, end, buf})
		if end >= win.now {
			later++
		}
		switch c.Intn(4) {
		case 0:
			end = start
		case 1:
			end -= length/2 + 1 // overlapping
		case 2:
			end = start - win.dur/20 - 1
		default:
			end = start - 1
		}
		if len(vals) > 1 && vals[len(vals)-2].end <= vals[len(vals)-1].end {
			panic("order")
		}
		if end >= vals[len(vals)-1].end {
			end = vals[len(vals)-1].end - 1
		}
	}
	c.Count("later-records", int64(later))

	var db database.DB
	plug := newDB()
	if real {
		dir := c.R.TempDir()
		defer os.RemoveAll(dir)
		fdb := fillFiles(c, dir, win.metric, vals)
		if fdb == nil {
			return
		}
		db = fdb
		if n == 0 {
			return // it has no such metric, which is not specified
		}
	} else {
		for _, v := range vals {
			plug.put(win.metric, v)
			plug.put("another", value{v.start, v.end + 1, encodeRecord(makeRecord(v.start, v.end+1, 1000, 1, []float64{1e4}))})
		}
		db = plug
	}

	// the same may have been asked before, when there was something else
	before := !real && c.P(1, 2)

	measured, cols, newest, in, err := expected(win, append([]value(nil), vals...))
	if err != nil {
		panic(err)
	}

	srv := api.New(db, nil, api.Options{})
	p := params{"metric", win.metric, "now", itoa(win.now), "width", itoa(int64(win.w)), "height", itoa(int64(win.h)),
		"padding", itoa(int64(win.pad)), "samples", itoa(int64(win.samples)), "compression", fmt.Sprint(win.compression)}
	switch {
	case win.dur%1e9 == 0 && c.P(1, 2):
		p = append(p, "duration", itoa(win.dur/1e9)+"s")
	default:
		p = append(p, "duration", itoa(win.dur)+"ns")
	}
	what := fmt.Sprintf("%s (%d records, %d in the window)", p.encode(), len(vals), in)
	if len(win.metric) > 100 {
		what = fmt.Sprintf("metric of %d bytes, %s (%d records, %d in the window)", len(win.metric), p[2:].encode(), len(vals), in)
	}
	for i, v := range vals {
		if i < 40 {
			c.Logf("record %d: now-%d .. now-%d", i, win.now-v.start, win.now-v.end)
		}
	}

	if before {
		all := plug.vals
		plug.vals = map[string][]value{}
		for _, v := range vals {
			if c.P(1, 2) {
				plug.put(win.metric, v)
			}
		}
		if c.P(1, 4) {
			plug.failAt = 0
		}
		for k := c.Range(1, 3); k > 0; k-- {
			req := newRequest("GET", "/api/render", p)
			if c.P(1, 2) {
				req.Header.Set("Accept", "application/json")
			}
			c.Guard(what, func() { srv.ServeHTTP(newRecorder(), req) })
		}
		plug.failAt = -1
		plug.vals = all
		c.Count("asked-before", 1)
	}

	// the JSON answer
	req := newRequest("GET", "/api/render", p)
	req.Header.Set("Accept", "application/json")
	rec := newRecorder()
	c.Guard(what, func() { srv.ServeHTTP(rec, req) })
	if c.Failed() {
		return
	}
	if rec.Code != http.StatusOK {
		c.Failf("status", "%s: %d %.300q", what, rec.Code, rec.Body)
		return
	}
	if ct := rec.Header().Get("Content-Type"); ct != "application/json" {
		c.Failf("type", "%s: content type %q", what, ct)
		return
	}
	var got answerJSON
	if err := json.Unmarshal(rec.Body.Bytes(), &got); err != nil {
		c.Failf("json", "%s: %v: %.300q", what, err, rec.Body)
		return
	}
	if got.Metric == nil || *got.Metric != win.metric || got.Now == nil || *got.Now != win.now ||
		got.Duration == nil || *got.Duration != win.dur || got.Width == nil || *got.Width != win.w ||
		got.Height == nil || *got.Height != win.h || got.Padding == nil || *got.Padding != win.pad {
		c.Failf("fields", "%s: the request is not repeated: %.400q", what, rec.Body)
		return
	}
	switch {
	case newest == nil:
		if got.Earliest != nil && *got.Earliest != "" {
			c.Failf("earliest", "%s: there is no record, but earliest is %q", what, *got.Earliest)
			return
		}
	case got.Earliest == nil:
		c.Failf("earliest", "%s: no earliest record", what)
		return
	default:
		raw, err := base64.StdEncoding.DecodeString(*got.Earliest)
		if err != nil || !bytes.Equal(raw, newest) {
			c.Failf("earliest", "%s: the earliest record is %x, should be %x (%v)", what, raw, newest, err)
			return
		}
	}
	if d := sameColumns(got.Columns, cols); d != "" {
		c.Failf("columns", "%s: %s", what, d)
		return
	}
	c.Count("json", 1)
	c.Count("columns", int64(len(cols)))

	// the image
	req = newRequest("GET", "/api/render", p)
	if c.P(1, 2) {
		req.Header.Set("Accept", c.PickS("image/png", "*/*", "text/html,application/xhtml+xml"))
	}
	rec = newRecorder()
	c.Guard(what, func() { srv.ServeHTTP(rec, req) })
	if c.Failed() {
		return
	}
	if rec.Code != http.StatusOK || rec.Header().Get("Content-Type") != "image/png" {
		c.Failf("status", "%s: image: %d %q", what, rec.Code, rec.Header())
		return
	}
	img, err := png.Decode(bytes.NewReader(rec.Body.Bytes()))
	if err != nil {
		c.Failf("png", "%s: %v", what, err)
		return
	}
	if b := img.Bounds(); b.Dx() != win.w+2*win.pad || b.Dy() != win.h+2*win.pad {
		c.Failf("size", "%s: image of %v", what, b)
		return
	}
	var want *draw.RGB
	c.Guard("draw", func() {
		want = measured.Draw(ctx, graph.DrawOptions{Columns: cols, Colors: colors.Viridis})
	})
	if c.Failed() {
		return
	}
	if d := sameImage(img, want.AsImage()); d != "" {
		c.Failf("image", "%s: differs from a drawing of its columns: %s", what, d)
		return
	}
	if newest != nil {
		if d := heatmapPixels(img, measured, cols, newest); d != "" {
			c.Failf("heatmap", "%s: %s", what, d)
			return
		}
	}
	c.Count("images", 1)
	if len(cols) > 0 {
		c.NonTrivial()
	}
	c.Sig(what)
	if c.Index < 3 {
		c.Sample(map[string]interface{}{"request": p.encode(), "records": len(vals), "in": in, "columns": len(cols)})
	}

	// failing storage
	if !real && c.P(1, 3) {
		plug.failAt = c.Intn(in + 1)
		if in == 0 && later < len(vals) {
			plug.failAt = 0
		}
		failed := plug.failed
		req := newRequest("GET", "/api/render", p)
		if c.P(1, 2) {
			req.Header.Set("Accept", "application/json")
		}
		rec := newRecorder()
		c.Guard(what, func() { srv.ServeHTTP(rec, req) })
		if c.Failed() {
			return
		}
		if plug.failed > failed {
			c.Count("failures", 1)
			if rec.Code < 500 {
				c.Failf("hidden-error", "%s: the storage failed after %d records, but: %d", what, plug.failAt, rec.Code)
			}
			plug.failAt = -1
			req = newRequest("GET", "/api/render", p)
			again := newRecorder()
			c.Guard(what, func() { srv.ServeHTTP(again, req) })
			if !c.Failed() && again.Code != http.StatusOK {
				c.Failf("status", "%s: after the storage had failed once: %d", what, again.Code)
			}
		}
	}
}

func sameColumns(got []column, want []draw.Column) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d columns, should be %d", len(got), len(want))
	}
	g := append([]column(nil), got...)
	w := append([]draw.Column(nil), want...)
	sort.SliceStable(g, func(i, j int) bool { return g[i].X < g[j].X })
	sort.SliceStable(w, func(i, j int) bool { return w[i].X < w[j].X })
	for i := range g {
		a, b := g[i], w[i]
		if a.X != b.X || a.W != b.W || a.ObsSec != b.ObsSec || len(a.Data) != len(b.Data) {
			return fmt.Sprintf("column %d is x=%d w=%d obs/sec=%v with %d values, should be x=%d w=%d obs/sec=%v with %d values",
				i, a.X, a.W, a.ObsSec, len(a.Data), b.X, b.W, b.ObsSec, len(b.Data))
		}
		for j := range a.Data {
			if a.Data[j] != b.Data[j] {
				return fmt.Sprintf("column %d value %d is %v, should be %v", i, j, a.Data[j], b.Data[j])
			}
		}
	}
	return ""
}

func sameImage(a image.Image, b image.Image) string {
	if a.Bounds() != b.Bounds() {
		return fmt.Sprintf("%v instead of %v", a.Bounds(), b.Bounds())
	}
	r := a.Bounds()
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			r0, g0, b0, a0 := a.At(x, y).RGBA()
			r1, g1, b1, a1 := b.At(x, y).RGBA()
			if r0 != r1 || g0 != g1 || b0 != b1 || a0 != a1 {
				return fmt.Sprintf("pixel %d,%d is %v, should be %v", x, y, a.At(x, y), b.At(x, y))
			}
		}
	}
	return ""
}

// heatmapPixels checks the colours of the heatmap in the image: the lowest
// value at the bottom, and white where there is no column.
func heatmapPixels(img image.Image, m graph.Measured, cols []draw.Column, newest []byte) string {
	var rec data.Record
	if err := rec.Unmarshal(newest); err != nil {
		panic(err)
	}
	d, err := load.Load(ctx, rec)
	if err != nil {
		panic(err)
	}
	by := make([]*draw.Column, m.Width)
	for i := range cols {
		for x := cols[i].X; x < cols[i].X+cols[i].W; x++ {
			by[x] = &cols[i]
		}
	}
	for x := 0; x < m.Width; x++ {
		for y := 0; y < m.Height; y++ {
			r, g, b, _ := img.At(m.X+x, m.Y+y).RGBA()
			got := draw.Color{R: uint8(r >> 8), G: uint8(g >> 8), B: uint8(b >> 8)}
			col := by[x]
			if col == nil {
				if got != (draw.Color{R: 255, G: 255, B: 255}) {
					return fmt.Sprintf("pixel %d,%d of the heatmap is %v without a column", x, y, got)
				}
				continue
			}
			// allow for either neighbour where the height falls between
			// two values.
			up := m.Height - 1 - y
			pos := 0.0
			if m.Height > 1 {
				pos = float64(up) * float64(len(col.Data)-1) / float64(m.Height-1)
			}
			ok := false
			for _, i := range []int{int(pos), int(pos + 1e-6), int(pos - 1e-6)} {
				if i >= 0 && i < len(col.Data) {
					q := d.(interface{ CDF(float64) float64 }).CDF(col.Data[i])
					if colors.Viridis[int(q*float64(len(colors.Viridis)-1))] == got {
						ok = true
					}
				}
			}
			if !ok {
				return fmt.Sprintf("pixel %d,%d of the heatmap is %v, which is not the colour of value %v of the column at %d", x, y, got, pos, col.X)
			}
		}
	}
	return ""
}

// fillFiles writes the values into real data files.
func fillFiles(c *hk.C, dir, metric string, vals []value) database.DB {
	opts := files.Options{Size: c.Pick(128, 300, 1024), Cap: c.Pick(12, 40), Files: 20, Tuning: files.Tuning{Buffer: 4, Workers: 1, Handles: c.Pick(0, 1, 8)}}
	db := files.New(dir, opts)
	dctx, cancel := context.WithCancel(ctx)
	done := make(chan struct{})
	go func() { db.Run(dctx); close(done) }()
	defer func() { cancel(); <-done }()
	for i := len(vals) - 1; i >= 0; i-- {
		type res struct {
			ok  bool
			err error
		}
		ch := make(chan res, 1)
		db.Queue(ctx, metric, vals[i].start, vals[i].end, vals[i].data, func(ok bool, err error) { ch <- res{ok, err} })
		if r := <-ch; !r.ok || r.err != nil {
			c.Failf("not-written", "value %d of %d bytes was not written: %v", i, len(vals[i].data), r.err)
			return nil
		}
	}
	return db
}

// defaultsCase leaves parameters out.
func defaultsCase(c *hk.C) {
	db := newDB()
	now := time.Now().UnixNano()
	for i := int64(1); i < 5; i++ {
		start, end := now-(i+1)*3600e9, now-i*3600e9
		db.put("m", value{start, end, encodeRecord(makeRecord(start, end, 1000, 1, makeVals(c, 5)))})
	}
	srv := api.New(db, nil, api.Options{})
	p := params{"metric", "m"}
	if c.P(1, 2) {
		p = append(p, "now", itoa(now))
	}
	req := newRequest("GET", "/api/render", p)
	req.Header.Set("Accept", "application/json")
	before := time.Now().UnixNano()
	rec := newRecorder()
	c.Guard("defaults", func() { srv.ServeHTTP(rec, req) })
	if c.Failed() {
		return
	}
	after := time.Now().UnixNano()
	var got answerJSON
	if err := json.Unmarshal(rec.Body.Bytes(), &got); err != nil || rec.Code != 200 {
		c.Failf("json", "%s: %d %v: %.300q", p.encode(), rec.Code, err, rec.Body)
		return
	}
	if got.Now == nil || len(p) == 4 && *got.Now != now || len(p) == 2 && (*got.Now < before || *got.Now > after) {
		c.Failf("now", "%s: the graph is not about now: %.300q", p.encode(), rec.Body)
		return
	}
	if len(got.Columns) == 0 || got.Width == nil || got.Height == nil || got.Duration == nil || got.Padding == nil || *got.Metric != "m" {
		c.Failf("defaults", "%s: %.300q", p.encode(), rec.Body)
		return
	}
	last := 0
	for _, col := range got.Columns {
		if col.X+col.W > last {
			last = col.X + col.W
		}
	}
	if last > *got.Width {
		c.Failf("defaults", "%s: columns up to %d with a width of %d", p.encode(), last, *got.Width)
		return
	}
	c.NonTrivial()
	c.Count("defaults", 1)
}

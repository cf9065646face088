package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"image/png"
	"math"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/vivint/rothko/api"
	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/internal/zzverif/hk"
)

func c23(r *hk.Run) {
	r.Rule("requests with absent, ordinary, extreme and garbage parameters against databases with no, good, odd, damaged and failing records; every answer must be complete, of an allowed status, and the server must go on. all ordinary sizes must be drawn. a sequential section watches time and allocated memory. real data files with damage. non-trivial if the request ran a query; distinct by parameters and kind of storage")
	r.Cases("sizes", r.N(1500, 40000), 8, sizeCase)
	r.Cases("requests", r.N(6000, 150000), 8, requestCase)
	r.Cases("extreme", r.N(400, 5000), 1, extremeCase)
	r.Cases("worn", r.N(8, 100), 1, wornCase)
	r.Cases("waiting", r.N(60, 1000), 4, waitingCase)
	r.Cases("files", r.N(150, 4000), 4, filesCase)
	r.Require("drawn", 1500)
	r.Require("status:200", 4000)
	r.Require("status:400", 1000)
	r.Require("status:500", 500)
	r.Require("worn", 4000)
	r.Require("waited", 60)
}

// c23race asks one server for everything from several threads.
func c23race(r *hk.Run) {
	r.Rule("one server asked from eight threads at once; the answers compared with those given one at a time, under the race detector. non-trivial always; distinct by case")
	r.Cases("storm", r.N(5, 200), 1, stormCase)
	r.Require("compared", 500)
}

// storage kinds
const (
	stEmpty = iota
	stGood
	stOdd
	stDamaged
	stFailing
)

var stNames = []string{"empty", "good", "odd", "damaged", "failing"}

const day = int64(24 * time.Hour)

// fill puts records that end before now into the metric m.
func fill(c *hk.C, db *PlugDB, kind int, now, dur int64) {
	if kind == stEmpty {
		return
	}
	n := c.Pick(1, 2, 5, 20, 60)
	step := dur / int64(n)
	if step < 1 {
		step = 1
	}
	end := now - 1 - int64(c.Intn(10))
	var vals []value
	for i := 0; i < n; i++ {
		start := end - step
		if start > end { // wrapped
			break
		}
		rec := makeRecord(start, end, float64(c.Pick(5, 20, 100)), 1, makeVals(c, c.Pick(1, 1, 2, 10, 50)))
		vals = append(vals, value{start, end, encodeRecord(rec)})
		end = start - int64(c.Pick(0, 0, 0, 1, 3))*step/2
		if end >= start && i > 0 && end != start {
			break
		}
	}
	for i := range vals {
		if (kind == stOdd || kind == stDamaged) && (i == 0 || c.P(1, 2)) {
			if kind == stOdd {
				vals[i].data = oddRecord(c, vals[i])
			} else {
				vals[i].data = damagedRecord(c, vals[i].data)
			}
		}
		db.put("m", vals[i])
	}
	if kind == stFailing {
		db.failAt = c.Intn(len(vals) + 1)
	}
}

var oddFloats = []float64{0, 1, -1, math.MaxFloat64, -math.MaxFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 5e-324, 65504, 1e5, 1e30, -1e30}

func oddInt(c *hk.C) int64 {
	return []int64{0, 1, -1, math.MaxInt64, math.MinInt64, 1 << 32, -1 << 32, 1e18, int64(c.Intn(1000))}[c.Intn(9)]
}

// oddRecord makes a record that decodes, but that is not how records are.
func oddRecord(c *hk.C, v value) []byte {
	n := c.Pick(0, 0, 1, 2, 10, 300)
	vals := makeVals(c, n)
	for i := range vals {
		if c.P(1, 2) {
			if f := oddFloats[c.Intn(len(oddFloats))]; !math.IsNaN(f) && !math.IsInf(f, 0) {
				vals[i] = f
			}
		}
	}
	rec := makeRecord(v.start, v.end, float64(c.Pick(1, 2, 5, 100, 1000)), 1, vals)
	for i := c.Range(1, 3); i > 0; i-- {
		switch c.Intn(8) {
		case 0:
			rec.StartTime = oddInt(c)
		case 1:
			rec.EndTime = oddInt(c)
		case 2:
			rec.Observations = oddInt(c)
		case 3:
			rec.Merged = oddInt(c)
		case 4:
			rec.Min = oddFloats[c.Intn(len(oddFloats))]
		case 5:
			rec.Max = oddFloats[c.Intn(len(oddFloats))]
		case 6:
			rec.MinId, rec.MaxId = c.Bytes(c.Intn(5)), c.Bytes(c.Intn(5))
		}
	}
	return encodeRecord(rec)
}

// damagedRecord makes bytes that likely do not decode.
func damagedRecord(c *hk.C, buf []byte) []byte {
	var rec data.Record
	if err := rec.Unmarshal(buf); err != nil {
		panic(err)
	}
	switch c.Intn(7) {
	case 0:
		return c.Bytes(c.Intn(60))
	case 1:
		return append([]byte(nil), buf[:c.Intn(len(buf)+1)]...)
	case 2:
		rec.Kind = c.PickS("", "other", "tdigest\x00", "TDIGEST")
	case 3:
		rec.Distribution = c.Bytes(c.Intn(40))
	case 4:
		rec.Distribution = rec.Distribution[:c.Intn(len(rec.Distribution)+1)]
	case 5:
		for i := c.Range(1, 4); i > 0; i-- {
			rec.Distribution[c.Intn(len(rec.Distribution))] ^= byte(1 << uint(c.Intn(8)))
		}
	default:
		out := append([]byte(nil), buf...)
		for i := c.Range(1, 4); i > 0; i-- {
			out[c.Intn(len(out))] ^= byte(1 << uint(c.Intn(8)))
		}
		return out
	}
	return encodeRecord(rec)
}

// answer asks the server and checks that the answer is complete.
func answer(c *hk.C, srv http.Handler, req *http.Request, what string) (rec *httptest.ResponseRecorder, ok bool) {
	rec = newRecorder()
	began := time.Now()
	c.Guard(what, func() { srv.ServeHTTP(rec, req) })
	if c.Failed() {
		return nil, false
	}
	hk.Progress()
	if took := time.Since(began); took > 45*time.Second {
		c.Failf("time", "%s: took %v", what, took)
		return nil, false
	}
	c.Count(fmt.Sprintf("status:%d", rec.Code), 1)
	switch {
	case rec.Code == 200 || rec.Code >= 400 && rec.Code < 500:
	case rec.Code >= 500 && rec.Code < 600:
		if rec.Body.Len() == 0 {
			c.Failf("incomplete", "%s: status %d without a message", what, rec.Code)
			return nil, false
		}
	default:
		c.Failf("status", "%s: status %d", what, rec.Code)
		return nil, false
	}
	return rec, true
}

// complete checks the body of a successful render.
func complete(c *hk.C, rec *httptest.ResponseRecorder, what string, w, h int) bool {
	ct := rec.Header().Get("Content-Type")
	switch {
	case strings.HasPrefix(ct, "application/json"):
		dec := json.NewDecoder(bytes.NewReader(rec.Body.Bytes()))
		var v interface{}
		if err := dec.Decode(&v); err != nil || dec.More() {
			c.Failf("incomplete", "%s: invalid JSON: %v: %.300q", what, err, rec.Body)
			return false
		}
	case ct == "image/png":
		if rec.Body.Len() > 4<<20 && w <= 0 {
			return true
		}
		img, err := png.Decode(bytes.NewReader(rec.Body.Bytes()))
		if err != nil {
			c.Failf("incomplete", "%s: invalid PNG: %v", what, err)
			return false
		}
		if b := img.Bounds(); w > 0 && (b.Dx() != w || b.Dy() != h) {
			c.Failf("size", "%s: image of %dx%d, want %dx%d", what, b.Dx(), b.Dy(), w, h)
			return false
		}
	default:
		c.Failf("type", "%s: content type %q", what, ct)
		return false
	}
	return true
}

// alive checks that the server still answers.
func alive(c *hk.C, srv http.Handler, db *PlugDB) bool {
	db.mu.Lock()
	db.failAt = -1
	_, ok := db.vals["ok"]
	db.mu.Unlock()
	if !ok {
		db.put("ok", value{100, 200, encodeRecord(makeRecord(100, 200, 100, 1, []float64{1, 2, 3}))})
	}
	req := newRequest("GET", "/api/render", params{"metric", "ok", "now", "300", "duration", "300ns", "width", "300", "height", "100"})
	rec, ok := answer(c, srv, req, "asking again")
	if !ok {
		return false
	}
	if rec.Code != 200 {
		c.Failf("wedged", "asking for an ordinary graph afterwards: %d %.300q", rec.Code, rec.Body)
		return false
	}
	return complete(c, rec, "asking again", 300, 100)
}

func sizeCase(c *hk.C) {
	w, h := c.Range(300, 700), c.Range(100, 500)
	switch c.Intn(6) {
	case 0:
		w = c.Range(300, 3000)
	case 1:
		h = c.Range(100, 2000)
	case 2:
		w, h = c.Range(300, 320), c.Range(100, 110)
	}
	pad := c.Pick(0, 0, 1, 5, 20, 100)
	now := []int64{1500000000e9, 0, 1, -1, 12345, -1500000000e9, 1 << 62}[c.Intn(7)] + int64(c.Intn(1000))
	dur := []int64{day, 1e9, 100, 1, 365 * day, 60e9, day * 7, int64(w), int64(w) - 1}[c.Intn(9)]
	kind := c.Pick(stEmpty, stGood, stGood, stGood)
	db := newDB()
	fill(c, db, kind, now, dur)
	p := params{"metric", "m", "width", itoa(int64(w)), "height", itoa(int64(h)), "padding", itoa(int64(pad)),
		"now", itoa(now), "duration", itoa(dur) + "ns"}
	if c.P(1, 2) {
		p = append(p, "samples", itoa(int64(c.Pick(1, 2, 30, 100, 1000))))
	}
	if c.P(1, 2) {
		p = append(p, "compression", c.PickS("1", "1.5", "5", "100", "1000"))
	}
	req := newRequest("GET", "/api/render", p)
	if c.P(1, 3) {
		req.Header.Set("Accept", "application/json")
	}
	what := fmt.Sprintf("%s records, %s", stNames[kind], p.encode())
	rec, ok := answer(c, api.New(db, nil, api.Options{}), req, what)
	if !ok {
		return
	}
	if rec.Code != 200 {
		c.Failf("refused", "%s: %d %.300q", what, rec.Code, rec.Body)
		return
	}
	if complete(c, rec, what, w+2*pad, h+2*pad) {
		c.Count("drawn", 1)
		c.NonTrivial()
		c.Sig(what)
	}
}

var hugeInts = []string{"0", "-1", "1", "9223372036854775807", "-9223372036854775808", "99999999999999999999999",
	"2147483647", "2147483648", "4294967296", "-2147483648", "1000000000", "33554432", "33554433", "4611686018427387904"}

var garbage = []string{"", "x", "1e3", "0x10", " 5", "5 ", "NaN", "Inf", "-Inf", "+5", "1_000", "\x00", "٣", "1.5", "--1"}

func randomParam(c *hk.C, ordinary ...string) (string, bool) {
	switch c.Intn(8) {
	case 0:
		return hugeInts[c.Intn(len(hugeInts))], true
	case 1:
		return garbage[c.Intn(len(garbage))], true
	case 2, 3:
		return "", false
	default:
		return ordinary[c.Intn(len(ordinary))], true
	}
}

func randomParams(c *hk.C, now, dur int64) params {
	p := params{"metric", c.PickS("m", "m", "m", "m", "none", "", "\x00", "m/../m")}
	add := func(name string, ordinary ...string) {
		if v, ok := randomParam(c, ordinary...); ok {
			p = append(p, name, v)
		}
	}
	if c.P(3, 4) {
		p = append(p, "now", itoa(now))
	} else {
		add("now", "0", "1500000000000000000")
	}
	if c.P(3, 4) {
		p = append(p, "duration", itoa(dur)+"ns")
	} else {
		add("duration", "1h", "1ns", "-1h", "2540400h", "0s", "1000000h", "9223372036854775807ns", "10m")
	}
	add("width", "300", "400", "1", "10", "50", "100", "1000", "150")
	add("height", "100", "350", "1", "10", "50", "60", "70", "500")
	add("padding", "0", "10", "100")
	add("samples", "1", "2", "30", "1024", "1025")
	add("compression", "1", "5", "0", "0.5", "1000", "1001", "1e308", "-5", "0.9999999", "nan", "inf")
	if c.P(1, 10) {
		p = append(p, "width", "7", "metric", "other") // only the first counts
	}
	return p
}

func requestCase(c *hk.C) {
	now := []int64{1500000000e9, 0, 500, -1e12, math.MaxInt64, math.MinInt64 + 1000, 1 << 60}[c.Intn(7)]
	dur := []int64{day, 1e9, 100, 1, 1000 * day, math.MaxInt64}[c.Intn(6)]
	kind := c.Intn(5)
	db := newDB()
	fill(c, db, kind, now, dur)
	srv := api.New(db, nil, api.Options{})

	for i := 0; i < 4; i++ {
		p := randomParams(c, now, dur)
		path := c.PickS("/api/render", "/api/render", "/api/render", "/api/render", "/api/query", "/api/nonce", "/x")
		if path == "/api/query" {
			p = append(p, "query", c.PickS("", "m", "*", "***********", strings.Repeat("*a", 200), "\xff", ". . .", "\x00"))
			if v, ok := randomParam(c, "1", "10", "100"); ok {
				p = append(p, "results", v)
			}
		}
		req := newRequest("GET", path, p)
		if c.P(1, 12) {
			req.URL.RawQuery = c.PickS("%zz", "metric=m;width=5", "metric=m&&&=&width", "metric=%00&now=%", "?", "metric=m#x", "=") + "&" + p.encode()
			req.RequestURI = req.URL.RequestURI()
		}
		if c.P(1, 3) {
			req.Header.Set("Accept", c.PickS("application/json", "application/json", "*/*", "image/png", ""))
		}
		if c.P(1, 12) {
			cctx, cancel := context.WithCancel(ctx)
			cancel()
			req = req.WithContext(cctx)
		}
		what := fmt.Sprintf("%s records, %s?%s", stNames[kind], path, req.URL.RawQuery)
		calls, failed := db.calls, db.failed

		if c.P(1, 8) { // the client goes away
			fw := &PlugWriter{left: c.Pick(0, 1, 10, 100, 5000), header: make(http.Header)}
			c.Guard(what, func() { srv.ServeHTTP(fw, req) })
			if c.Failed() {
				return
			}
			c.Count("gone", 1)
			continue
		}

		rec, ok := answer(c, srv, req, what)
		if !ok {
			return
		}
		if rec.Code >= 500 && kind != stOdd && kind != stDamaged && db.failed == failed {
			c.Failf("server-error", "%s: nothing is wrong with the storage: %d %.300q", what, rec.Code, rec.Body)
			return
		}
		if db.failed > failed && rec.Code < 500 {
			c.Failf("hidden-error", "%s: the storage failed, but: %d %.300q", what, rec.Code, rec.Body)
			return
		}
		if rec.Code == 200 && path == "/api/render" && !complete(c, rec, what, 0, 0) {
			return
		}
		if db.calls > calls {
			c.NonTrivial()
			c.Sig(what)
		}
		if c.Index < 4 && i == 0 {
			c.Sample(map[string]interface{}{"request": what, "status": rec.Code})
		}
	}
	alive(c, srv, db)
}

// PlugWriter is a connection whose other end goes away.
type PlugWriter struct {
	left   int
	header http.Header
}

func (w *PlugWriter) Header() http.Header { return w.header }
func (w *PlugWriter) WriteHeader(int)     {}
func (w *PlugWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.left = 0
		return n, errors.New("broken pipe")
	}
	w.left -= len(p)
	return len(p), nil
}

// extremeCase watches the memory of a single request.
func extremeCase(c *hk.C) {
	now, dur := int64(1500000000e9), day
	kind := c.Pick(stEmpty, stGood, stGood, stOdd)
	db := newDB()
	fill(c, db, kind, now, dur)
	srv := api.New(db, nil, api.Options{})
	p := params{"metric", "m", "now", itoa(now)}
	set := map[string]string{"width": "300", "height": "100", "padding": "0", "samples": "30", "compression": "5", "duration": itoa(dur) + "ns"}
	var which []string
	for _, name := range []string{"width", "height", "padding", "samples", "compression", "duration"} {
		if c.P(1, 3) {
			which = append(which, name)
		}
	}
	if len(which) == 0 {
		which = append(which, "width")
	}
	for _, name := range which {
		switch name {
		case "compression":
			set[name] = c.PickS("1e5", "1e9", "1e18", "1e308", "1e-308", "0.001", "-1", "NaN", "Inf", "1000", "1")
		case "duration":
			set[name] = c.PickS("1ns", "2562047h", "9223372036854775807ns", "-1ns", "1us", "100000h", "-9223372036854775808ns")
		default:
			set[name] = c.PickS("9223372036854775807", "4611686018427387904", "2147483647", "4294967297", "1000000000", "100000000",
				"33554432", "16777216", "335544", "100000", "30000", "9000", "1024", "5793", "1", "0", "-1", "-9223372036854775808", "-4611686018427387904")
		}
	}
	for _, name := range []string{"width", "height", "padding", "samples", "compression", "duration"} {
		p = append(p, name, set[name])
	}
	req := newRequest("GET", "/api/render", p)
	if c.P(3, 4) {
		req.Header.Set("Accept", "application/json")
	}
	what := fmt.Sprintf("%s records, %s", stNames[kind], p.encode())
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	rec, ok := answer(c, srv, req, what)
	if !ok {
		return
	}
	runtime.ReadMemStats(&after)
	total := int64(after.TotalAlloc - before.TotalAlloc)
	c.R.Max("max-allocated", total)
	if total > 3<<30 {
		c.Failf("memory", "%s: allocated %d MB for %d %.100q", what, total>>20, rec.Code, rec.Body)
		return
	}
	if rec.Code >= 500 && kind != stOdd {
		c.Failf("server-error", "%s: %d %.300q", what, rec.Code, rec.Body)
		return
	}
	if rec.Code == 200 && !complete(c, rec, what, 0, 0) {
		return
	}
	c.NonTrivial()
	c.Sig(what)
}

// filesCase asks about real data files, also damaged ones.
func filesCase(c *hk.C) {
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	opts := files.Options{Size: 256, Cap: 20, Files: 3, Tuning: files.Tuning{Buffer: 4, Workers: 1, Handles: 4}}
	db := files.New(dir, opts)
	dctx, cancel := context.WithCancel(ctx)
	done := make(chan struct{})
	go func() { db.Run(dctx); close(done) }()
	now := int64(1000000)
	for i := int64(0); i < 30; i++ {
		start := now - 3100 + i*100
		ch := make(chan struct{})
		db.Queue(ctx, "m", start, start+100, encodeRecord(makeRecord(start, start+100, 100, 1, makeVals(c, 12))),
			func(bool, error) { close(ch) })
		<-ch
	}
	cancel()
	<-done
	damaged := c.P(2, 3)
	if damaged {
		matches, _ := filepath.Glob(filepath.Join(dir, "m", "*.data"))
		for _, path := range matches {
			if !c.P(2, 3) {
				continue
			}
			buf, err := os.ReadFile(path)
			if err != nil {
				panic(err)
			}
			switch c.Intn(4) {
			case 0:
				buf = buf[:c.Intn(len(buf))]
			case 1:
				buf = c.Bytes(len(buf))
			default:
				for i := c.Range(1, 30); i > 0; i-- {
					buf[c.Intn(len(buf))] ^= byte(1 << uint(c.Intn(8)))
				}
			}
			os.WriteFile(path, buf, 0644)
		}
	}
	db = files.New(dir, opts)
	srv := api.New(db, nil, api.Options{})
	for i := 0; i < 6; i++ {
		p := params{"metric", c.PickS("m", "m", "m", "none", "", "..", "m/1.data", "\x00", "m."), "now", itoa(now - int64(c.Intn(3500))),
			"duration", c.PickS("3000ns", "1000ns", "1h"), "width", "400", "height", "120"}
		req := newRequest("GET", c.PickS("/api/render", "/api/render", "/api/query"), p)
		if c.P(1, 2) {
			req.Header.Set("Accept", "application/json")
		}
		what := fmt.Sprintf("data files (damaged: %v), %s?%s", damaged, req.URL.Path, p.encode())
		rec, ok := answer(c, srv, req, what)
		if !ok {
			return
		}
		if !damaged && p[1] == "m" && rec.Code != 200 {
			c.Failf("server-error", "%s: %d %.300q", what, rec.Code, rec.Body)
			return
		}
		if rec.Code == 200 && req.URL.Path == "/api/render" && !complete(c, rec, what, 400, 120) {
			return
		}
		c.Count("files-requests", 1)
	}
	c.NonTrivial()
	c.Sig("files", c.Index)
}

// wornCase asks one server for very many things that fail, or whose client goes
// away. nothing may be left behind by that.
func wornCase(c *hk.C) {
	now, dur := int64(1500000000e9), day
	db := newDB()
	fill(c, db, stGood, now, dur)
	srv := api.New(db, nil, api.Options{})
	if !alive(c, srv, db) {
		return
	}
	before := runtime.NumGoroutine()
	mix := c.Intn(5)
	n := 1200
	for i := 0; i < n && !c.Failed(); i++ {
		db.failAt = -1
		p := params{"metric", c.PickS("m", "m", "none"), "now", itoa(now), "duration", itoa(dur) + "ns", "width", "300", "height", "100"}
		req := newRequest("GET", "/api/render", p)
		if c.P(1, 2) {
			req.Header.Set("Accept", "application/json")
		}
		how := mix
		if how == 4 {
			how = c.Intn(4)
		}
		what := fmt.Sprintf("request %d", i)
		switch how {
		case 0: // failing storage
			db.failAt = c.Intn(3)
			if c.P(1, 3) {
				req.URL.Path = "/api/query"
			}
		case 1: // what makes no sense
			req = newRequest("GET", c.PickS("/api/render", "/x"), append(params{"width", "-5"}, p...))
		case 2:
			cctx, cancel := context.WithCancel(ctx)
			cancel()
			req = req.WithContext(cctx)
		case 3:
			fw := &PlugWriter{left: c.Pick(0, 1, 10, 100, 5000), header: make(http.Header)}
			c.Guard(what, func() { srv.ServeHTTP(fw, req) })
			hk.Progress()
			c.Count("worn", 1)
			continue
		}
		answer(c, srv, req, what)
		c.Count("worn", 1)
	}
	if c.Failed() || !alive(c, srv, db) {
		return
	}
	deadline := time.Now().Add(10 * time.Second)
	for runtime.NumGoroutine() > before+n/4 {
		if time.Now().After(deadline) {
			c.Failf("left", "after %d requests there are %d goroutines, before there were %d", n, runtime.NumGoroutine(), before)
			return
		}
		time.Sleep(time.Millisecond)
	}
	c.NonTrivial()
	c.Sig("worn", c.Index)
}

// SlowWriter is a client that does not read until it is released.
type SlowWriter struct {
	*httptest.ResponseRecorder
	wait func()
}

func (w *SlowWriter) Write(p []byte) (int, error) {
	w.wait()
	return w.ResponseRecorder.Write(p)
}

// waitingCase asks while other requests wait for their storage or their client,
// which only go on when it has its answers.
func waitingCase(c *hk.C) {
	now, dur := int64(1500000000e9), day
	db := newDB()
	fill(c, db, stGood, now, dur)
	db.put("slow", value{now - 200, now - 100, encodeRecord(makeRecord(now-200, now-100, 100, 1, []float64{1, 2, 3}))})
	release, inside := make(chan struct{}), make(chan struct{}, 1000)
	stop := func() {
		inside <- struct{}{}
		<-release
	}
	var waiting int32 = 1
	db.wait = func(what string) {
		if what == "query" || atomic.LoadInt32(&waiting) == 1 {
			stop()
		}
	}
	srv := api.New(db, &PlugStatic{}, api.Options{})
	n := c.Range(1, 40)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		path, metric, slow := "/api/render", "slow", false
		switch c.Intn(4) {
		case 0:
			path = "/api/query"
		case 1:
			metric, slow = "m", true
		case 2:
			path, slow = c.PickS("/api/nonce", "/"), true
		}
		req := newRequest("GET", path, params{"metric", metric, "now", itoa(now), "duration", itoa(dur) + "ns", "width", "300", "height", "100"})
		if c.P(1, 2) {
			req.Header.Set("Accept", "application/json")
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.Guard("waiting", func() {
				rec := newRecorder()
				var once sync.Once
				if slow {
					srv.ServeHTTP(&SlowWriter{rec, func() { once.Do(stop) }}, req)
				} else {
					srv.ServeHTTP(rec, req)
				}
				if rec.Code != 200 {
					c.Failf("waited", "a request that had to wait is answered %d %.200q", rec.Code, rec.Body)
				}
			})
		}()
	}
	for i := 0; i < n; i++ {
		<-inside
	}
	atomic.StoreInt32(&waiting, 0)
	ok := true
	for _, p := range []string{"/api/query", "/api/nonce", "/x", "/api/render"} {
		if p == "/api/render" {
			ok = ok && alive(c, srv, db)
			continue
		}
		rec, good := answer(c, srv, newRequest("GET", p, nil), "asking while others wait")
		if ok = ok && good; good && rec.Code != 200 {
			c.Failf("wedged", "asking for %s while others wait: %d %.200q", p, rec.Code, rec.Body)
		}
	}
	close(release)
	wg.Wait()
	if ok {
		c.Count("waited", int64(n))
		c.NonTrivial()
		c.Sig("waiting", n)
	}
}

func stormCase(c *hk.C) {
	// with few observations and a large compression there is only one answer,
	// otherwise the library merges in random order.
	now, dur := int64(1500000000e9), day
	db := newDB()
	for i := int64(0); i < 20; i++ {
		start, end := now-1-(i+1)*dur/24, now-1-i*dur/24
		db.put("m", value{start, end, encodeRecord(makeRecord(start, end, 1000, 1, makeVals(c, 10)))})
	}
	for i := 0; i < 20; i++ {
		db.extra = append(db.extra, randomName(c))
	}
	srv := api.New(db, nil, api.Options{})
	type ask struct {
		path string
		p    params
		json bool
		code int
		body string
	}
	var asks []*ask
	for i := 0; i < 16; i++ {
		a := &ask{path: "/api/render", p: params{"compression", "1000", "metric", c.PickS("m", "m", "none"), "now", itoa(now), "duration", c.PickS("24h", "1h"),
			"width", itoa(int64(c.Range(300, 500))), "height", itoa(int64(c.Range(100, 200))), "padding", c.PickS("0", "7")}, json: c.P(1, 2)}
		if c.P(1, 4) {
			a.path, a.p = "/api/query", params{"query", c.PickS("", "a", "*b"), "results", "50"}
		}
		if c.P(1, 10) {
			a.path = "/api/nonce"
		}
		asks = append(asks, a)
	}
	get := func(a *ask) (int, string) {
		req := newRequest("GET", a.path, a.p)
		if a.json {
			req.Header.Set("Accept", "application/json")
		}
		rec := newRecorder()
		srv.ServeHTTP(rec, req)
		hk.Progress()
		return rec.Code, rec.Body.String()
	}
	for _, a := range asks {
		a.code, a.body = get(a)
	}
	var wg sync.WaitGroup
	for t := 0; t < 8; t++ {
		order := c.Perm(len(asks))
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.Guard("storm", func() {
				for _, i := range order {
					a := asks[i]
					if code, body := get(a); code != a.code || body != a.body {
						c.Failf("differs", "%s?%s: asked from several threads the answer differs: %d (%d bytes), alone %d (%d bytes)",
							a.path, a.p.encode(), code, len(body), a.code, len(a.body))
						return
					}
					c.Count("compared", 1)
				}
			})
		}()
	}
	wg.Wait()
	c.NonTrivial()
	c.Sig("storm", c.Index)
}

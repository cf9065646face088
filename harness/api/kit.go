package main

import (
	"context"
	"errors"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/internal/zzverif/hk"
)

var ctx = context.Background()

type value struct {
	start, end int64
	data       []byte
}

// PlugDB is a database in memory that counts what it is asked, and fails when
// it is told to. like the real one it reuses the memory of what it hands out.
type PlugDB struct {
	mu     sync.Mutex
	vals   map[string][]value
	extra  []string // names without values
	calls  int64
	failAt int // fail before this many results, if not negative
	failed int64
	last   string // last metric that was queried

	// wait is called in the middle of queries of the metric "slow" and of
	// listings, without the lock.
	wait func(what string)
}

var errStorage = errors.New("storage is broken")

func newDB() *PlugDB { return &PlugDB{vals: make(map[string][]value), failAt: -1} }

func (db *PlugDB) put(name string, v value) {
	db.mu.Lock()
	defer db.mu.Unlock()
	vs := append(db.vals[name], v)
	sort.SliceStable(vs, func(i, j int) bool { return vs[i].end > vs[j].end })
	db.vals[name] = vs
}

func (db *PlugDB) Queue(ctx context.Context, metric string, start, end int64,
	data []byte, cb func(bool, error)) error {
	panic("the API must not write")
}

func (db *PlugDB) Run(ctx context.Context) error { <-ctx.Done(); return nil }

func (db *PlugDB) Query(ctx context.Context, metric string, end int64, buf []byte,
	cb database.ResultCallback) error {

	atomic.AddInt64(&db.calls, 1)
	db.mu.Lock()
	vals := db.vals[metric]
	failAt := db.failAt
	db.last = metric
	db.mu.Unlock()
	if db.wait != nil && metric == "slow" {
		db.wait("query")
	}
	n := 0
	for _, v := range vals {
		if v.end >= end {
			continue
		}
		if n == failAt {
			atomic.AddInt64(&db.failed, 1)
			return errStorage
		}
		n++
		buf = append(buf[:0], v.data...)
		ok, err := cb(ctx, v.start, v.end, buf)
		for i := range buf {
			buf[i] = 0xa5
		}
		if err != nil || !ok {
			return err
		}
	}
	if n == failAt {
		atomic.AddInt64(&db.failed, 1)
		return errStorage
	}
	return nil
}

func (db *PlugDB) QueryLatest(ctx context.Context, metric string, buf []byte) (
	start, end int64, data []byte, err error) {

	err = db.Query(ctx, metric, 1<<63-1, buf, func(ctx context.Context, s, e int64, d []byte) (bool, error) {
		start, end, data = s, e, append([]byte(nil), d...)
		return false, nil
	})
	return start, end, data, err
}

func (db *PlugDB) Metrics(ctx context.Context, cb func(name string) (bool, error)) error {
	atomic.AddInt64(&db.calls, 1)
	db.mu.Lock()
	var names []string
	for name := range db.vals {
		names = append(names, name)
	}
	names = append(names, db.extra...)
	failAt := db.failAt
	db.mu.Unlock()
	sort.Strings(names)
	if db.wait != nil {
		db.wait("listing")
	}
	for i, name := range names {
		if i == failAt {
			atomic.AddInt64(&db.failed, 1)
			return errStorage
		}
		ok, err := cb(name)
		if err != nil || !ok {
			return err
		}
	}
	if len(names) == failAt {
		atomic.AddInt64(&db.failed, 1)
		return errStorage
	}
	return nil
}

var _ database.DB = (*PlugDB)(nil)

// params are the parameters of a request in order.
type params []string

func (p params) encode() string {
	v := url.Values{}
	for i := 0; i+1 < len(p); i += 2 {
		v.Add(p[i], p[i+1])
	}
	return v.Encode()
}

func newRequest(method, path string, p params) *http.Request {
	u := &url.URL{Path: path, RawQuery: p.encode()}
	return &http.Request{
		Method: method, URL: u, Host: "rothko",
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header:     make(http.Header),
		RemoteAddr: "192.0.2.1:1234",
		RequestURI: u.RequestURI(),
	}
}

func serve(h http.Handler, req *http.Request) *httptest.ResponseRecorder {
	rec := httptest.NewRecorder()
	h.ServeHTTP(rec, req)
	return rec
}

// makeRecord makes an encoded record with the values.
func makeRecord(start, end int64, comp float64, merged int64, vals []float64) data.Record {
	d, err := tdigest.Params{Compression: comp}.New()
	if err != nil {
		panic(err)
	}
	r := data.Record{StartTime: start, EndTime: end, Merged: merged, Kind: "tdigest"}
	for i, v := range vals {
		d.Observe(v)
		if i == 0 || v < r.Min {
			r.Min = v
		}
		if i == 0 || v > r.Max {
			r.Max = v
		}
	}
	r.Observations = int64(len(vals))
	r.Distribution = d.Marshal(nil)
	return r
}

func encodeRecord(r data.Record) []byte {
	buf, err := r.Marshal()
	if err != nil {
		panic(err)
	}
	return buf
}

// makeVals makes observations of some style.
func makeVals(c *hk.C, n int) []float64 {
	style := c.Intn(6)
	out := make([]float64, n)
	for i := range out {
		switch style {
		case 0:
			out[i] = float64(c.Range(0, 100))
		case 1:
			out[i] = 7
		case 2:
			out[i] = c.Float()*2000 - 1000
		case 3:
			out[i] = float64(c.Pick(-1, 0, 1))
		case 4:
			out[i] = c.Float() * 1e-3
		default:
			out[i] = float64(c.Range(-30000, 30000))
		}
	}
	return out
}

func itoa(n int64) string { return strconv.FormatInt(n, 10) }

func newRecorder() *httptest.ResponseRecorder { return httptest.NewRecorder() }

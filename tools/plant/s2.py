SEEDS=[
dict(id='c12-store-race', property='C12', needs='two threads adding the first value of the same metric at the same time',
 breaks='one of them observes into an aggregate that the other one replaces: its observation is lost',
 edits=[('data/writer.go','		ai, _ = p.m.LoadOrStore(metric, newAgg(s.params, p.now))','		fresh := newAgg(s.params, p.now)\n		p.m.Store(metric, fresh)\n		ai = fresh')],
 pkg='data', demo='''package data_test

import (
	"context"
	"fmt"
	"sync"
	"testing"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/dist/tdigest"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	const workers, rounds = 16, 20000
	w := data.NewWriter(tdigest.Params{Compression: 5})
	var wg sync.WaitGroup
	var mu sync.RWMutex
	mu.Lock()
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.RLock()
			defer mu.RUnlock()
			for r := 0; r < rounds; r++ {
				w.Add(ctx, fmt.Sprintf("m%d", r), 1, nil)
			}
		}()
	}
	mu.Unlock()
	wg.Wait()
	total := int64(0)
	w.Capture(ctx, func(ctx context.Context, metric string, rec data.Record) bool {
		total += rec.Observations
		return true
	})
	if total != workers*rounds {
		t.Fatalf("added %d, captured %d", workers*rounds, total)
	}
}
'''),
dict(id='c13-id-buffer', property='C13', needs='a metric whose maximum grows, with identifiers of at most the same length',
 breaks='the buffer of the old maximum identifier is reused although it is also the identifier of the minimum',
 edits=[('data/agg.go','			id_copy = append(id_copy, id...)','			if obs > 0 && val > max {\n				id_copy = a.rec.MaxId[:0] // the old one is not needed any more\n			}\n			id_copy = append(id_copy, id...)')
 ,('data/agg.go','		// we only make the copy if we\'ll be storing it.\n		var id_copy []byte\n','		// we only make the copy if we\'ll be storing it, where we can in the\n		// place of the one it replaces.\n		id_copy := []byte(nil)\n')],
 pkg='data', demo='''package data_test

import (
	"context"
	"testing"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/dist/tdigest"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	w := data.NewWriter(tdigest.Params{Compression: 5})
	w.Add(ctx, "m", 5, []byte("five"))
	w.Add(ctx, "m", 7, []byte("sven"))
	w.Add(ctx, "m", 6, []byte("six"))
	w.Capture(ctx, func(ctx context.Context, metric string, rec data.Record) bool {
		if rec.Min != 5 || string(rec.MinId) != "five" || rec.Max != 7 || string(rec.MaxId) != "sven" {
			t.Fatalf("%+v", rec)
		}
		return true
	})
}
'''),
dict(id='c14-unlocked-marshal', property='C14', needs='values added while a live iteration marshals the distribution',
 breaks='the distribution is marshalled outside of the lock, so that it does not match the observation count, or worse',
 edits=[('data/agg.go','''func (a *agg) Finish(buf []byte, now time.Time) ([]byte, Record) {
	a.mu.Lock()
	defer a.mu.Unlock()

	if a.dist == nil {
		return buf, Record{}
	}

	out := a.rec
''','''func (a *agg) Finish(buf []byte, now time.Time) ([]byte, Record) {
	a.mu.Lock()
	out := a.rec
	a.mu.Unlock()

	if a.dist == nil {
		return buf, Record{}
	}

''')],
 pkg='data', flags='-race ', demo='''package data_test

import (
	"context"
	"testing"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/dist/tdigest"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	w := data.NewWriter(tdigest.Params{Compression: 100})
	stop, done := make(chan bool), make(chan bool)
	go func() {
		defer close(done)
		for i := 0; ; i++ {
			select {
			case <-stop:
				return
			default:
				w.Add(ctx, "m", float64(i%1000), nil)
			}
		}
	}()
	for until := time.Now().Add(5 * time.Second); time.Now().Before(until) && !t.Failed(); {
		w.Iterate(ctx, func(ctx context.Context, metric string, rec data.Record) bool {
			d, err := tdigest.Params{}.Unmarshal(rec.Distribution)
			if err != nil || d.Len() != rec.Observations {
				t.Errorf("%d observations, %v", rec.Observations, err)
			}
			return true
		})
	}
	close(stop)
	<-done
}
'''),
dict(id='c15-late-start', property='C15', needs='two captures of the same metric, one after the other',
 breaks='the next window starts at a time of its own, after the last one ended',
 edits=[('data/writer.go','''	now := time.Now()

	// swap it out''','''
	// swap it out'''),('data/writer.go','''	new_pi := unsafe.Pointer(newPage(now))
	if !atomic.CompareAndSwapPointer(&s.page, pi, new_pi) {
		return
	}
''','''	new_pi := unsafe.Pointer(newPage(time.Now()))
	if !atomic.CompareAndSwapPointer(&s.page, pi, new_pi) {
		return
	}
	now := time.Now()
''')],
 pkg='data', demo='''package data_test

import (
	"context"
	"testing"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/dist/tdigest"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	w := data.NewWriter(tdigest.Params{Compression: 5})
	last := int64(0)
	for i := 0; i < 1000; i++ {
		w.Add(ctx, "m", 1, nil)
		w.Capture(ctx, func(ctx context.Context, metric string, rec data.Record) bool {
			if last != 0 && rec.StartTime != last {
				t.Fatalf("started %d after the end", rec.StartTime-last)
			}
			last = rec.EndTime
			return true
		})
	}
}
'''),
dict(id='c16-cancelled-dump', property='C16', needs='the dumper being cancelled while a periodic dump is in progress',
 breaks='the records that the dump in progress has not handed over yet are dropped',
 edits=[('dump/dump.go','			d.Dump(context.Background(), w)','			d.Dump(ctx, w)')],
 pkg='dump', demo='''package dump_test

import (
	"context"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/dump"
)

type slow struct {
	database.DB
	mu    sync.Mutex
	names map[string]int
	first chan bool
	once  sync.Once
}

func (s *slow) Queue(ctx context.Context, metric string, start, end int64, data []byte, cb func(bool, error)) error {
	s.once.Do(func() { close(s.first) })
	time.Sleep(20 * time.Millisecond)
	s.mu.Lock()
	s.names[metric]++
	s.mu.Unlock()
	cb(true, nil)
	return nil
}

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	w := data.NewWriter(tdigest.Params{Compression: 5})
	for i := 0; i < 10; i++ {
		w.Add(ctx, fmt.Sprint(i), 1, nil)
	}
	s := &slow{names: make(map[string]int), first: make(chan bool)}
	done := make(chan bool)
	go func() {
		dump.New(dump.Options{DB: s, Period: time.Millisecond}).Run(ctx, w)
		close(done)
	}()
	<-s.first
	cancel()
	<-done
	if len(s.names) != 10 {
		t.Fatalf("%d of 10", len(s.names))
	}
}
'''),
dict(id='c17-no-wait', property='C17', needs='busy connections when the listener is stopped',
 breaks='the listener returns while its connections are still being handled, so that values are recorded after it',
 edits=[('listener/graphite/listener.go','''	case <-ctx.Done():
		lis.Close()
		wg.Wait()
		return nil''','''	case <-ctx.Done():
		return nil''')],
 pkg='listener/graphite', demo='''package graphite_test

import (
	"bytes"
	"context"
	"fmt"
	"net"
	"testing"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/listener/graphite"
)

func TestDemo(t *testing.T) {
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	addr := lis.Addr().String()
	lis.Close()
	var buf bytes.Buffer
	for buf.Len() < 1<<20 {
		fmt.Fprintf(&buf, "m 1 1\\n")
	}
	total := func(w *data.Writer) (n int64) {
		w.Iterate(context.Background(), func(ctx context.Context, metric string, rec data.Record) bool {
			n += rec.Observations
			return true
		})
		return n
	}
	for round := 0; round < 20; round++ {
		w := data.NewWriter(tdigest.Params{Compression: 5})
		ctx, cancel := context.WithCancel(context.Background())
		done := make(chan error, 1)
		go func() { done <- graphite.New(addr).Run(ctx, w) }()
		for i := 0; i < 16; i++ {
			go func() {
				var conn net.Conn
				var err error
				for j := 0; j < 500; j++ {
					if conn, err = net.Dial("tcp", addr); err == nil {
						break
					}
					time.Sleep(time.Millisecond)
				}
				if err != nil {
					return
				}
				defer conn.Close()
				for err == nil {
					_, err = conn.Write(buf.Bytes())
				}
			}()
		}
		for total(w) == 0 {
			time.Sleep(time.Millisecond)
		}
		time.Sleep(20 * time.Millisecond)
		cancel()
		<-done
		at := total(w)
		time.Sleep(100 * time.Millisecond)
		if after := total(w); after != at {
			t.Fatalf("%d recorded after it returned", after-at)
		}
	}
}
'''),
dict(id='c19-else-if', property='C19', needs='a record after the first that has both a smaller minimum and a larger maximum',
 breaks='its maximum is ignored',
 edits=[('merge/merge.go','''			out.MinId = r.MinId
		}
		if r.Max''','''			out.MinId = r.MinId
		} else if r.Max''')],
 pkg='merge', demo='''package merge_test

import (
	"context"
	"testing"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/merge"
)

func TestDemo(t *testing.T) {
	p := tdigest.Params{Compression: 5}
	rec := func(min, max float64, id string) data.Record {
		d, _ := p.New()
		d.Observe(min)
		d.Observe(max)
		return data.Record{Kind: "tdigest", Distribution: d.Marshal(nil), Observations: 2, Min: min, Max: max, MinId: []byte(id + "-"), MaxId: []byte(id + "+"), StartTime: 1, EndTime: 2}
	}
	out, err := merge.Merge(context.Background(), merge.MergeOptions{Params: p, Records: []data.Record{rec(4, 5, "a"), rec(1, 9, "b"), rec(3, 6, "c")}})
	if err != nil || out.Min != 1 || out.Max != 9 || string(out.MinId) != "b-" || string(out.MaxId) != "b+" {
		t.Fatalf("%+v %v", out, err)
	}
}
'''),
dict(id='c20-prune', property='C20', needs='a record whose oldest pixel is the newest one of the record after it',
 breaks='the record is pruned one pixel too early, so that the shared pixel shows only one of them',
 edits=[('merge/merger.go','		if m.records[i].start > completed_px &&\n','		if m.records[i].start+1 >= completed_px &&\n')],
 pkg='merge', demo='''package merge_test

import (
	"context"
	"testing"
	"time"

	"github.com/vivint/rothko/data"
	_ "github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/merge"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	p := tdigest.Params{Compression: 100}
	rec := func(start, end int64, val float64) data.Record {
		d, _ := p.New()
		d.Observe(val)
		return data.Record{Kind: "tdigest", Distribution: d.Marshal(nil), Observations: 1, Min: val, Max: val, StartTime: start, EndTime: end, Merged: 1}
	}
	m := merge.NewMerger(merge.MergerOptions{Samples: 4, Now: 100, Duration: 100 * time.Nanosecond, Params: p})
	m.SetWidth(10)
	for _, r := range []data.Record{rec(55, 95, 10), rec(15, 55, 20)} {
		if err := m.Push(ctx, r); err != nil {
			t.Fatal(err)
		}
	}
	cols, err := m.Finish(ctx)
	if err != nil {
		t.Fatal(err)
	}
	shared := false
	for _, col := range cols {
		if col.Data[0] == 10 && col.Data[4] == 20 {
			shared = true
		}
	}
	if !shared {
		t.Fatalf("no pixel shows both: %v", cols)
	}
}
'''),
dict(id='c21-marshal-append', property='C21', needs='a caller that marshals into a buffer that holds something already',
 breaks='what the buffer holds is overwritten instead of appended to',
 edits=[('dist/tdigest/wrapper.go','	return w.td.Marshal(buf)','	return w.td.Marshal(buf[:0])')],
 pkg='dist/tdigest', demo='''package tdigest_test

import (
	"bytes"
	"testing"

	"github.com/vivint/rothko/dist/tdigest"
)

func TestDemo(t *testing.T) {
	d, err := tdigest.Params{Compression: 5}.New()
	if err != nil {
		t.Fatal(err)
	}
	d.Observe(3)
	out := d.Marshal(append(make([]byte, 0, 1000), "head"...))
	if !bytes.HasPrefix(out, []byte("head")) || !bytes.Equal(out[4:], d.Marshal(nil)) {
		t.Fatalf("%q", out)
	}
}
'''),
dict(id='c22-method-first', property='C22', needs='a request without credentials that is no GET',
 breaks='it is answered 405 instead of 401 with a challenge',
 edits=[('api/server.go','''	if s.opts.Username != "" {
		username''','''	if req.Method != "GET" {
		return errMethodNotAllowed.New("%s", req.Method)
	}

	if s.opts.Username != "" {
		username'''),('api/server.go','''			return errUnauthorized.New("")
		}
	}

	if req.Method != "GET" {
		return errMethodNotAllowed.New("%s", req.Method)
	}

	switch''','''			return errUnauthorized.New("")
		}
	}

	switch''')],
 pkg='api', demo='''package api_test

import (
	"net/http/httptest"
	"testing"

	"github.com/vivint/rothko/api"
)

func TestDemo(t *testing.T) {
	s := api.New(nil, nil, api.Options{Username: "u", Password: "p"})
	for _, method := range []string{"GET", "POST", "HEAD", "OPTIONS"} {
		rec := httptest.NewRecorder()
		s.ServeHTTP(rec, httptest.NewRequest(method, "/api/nonce", nil))
		if rec.Code != 401 || rec.Header().Get("WWW-Authenticate") == "" {
			t.Errorf("%s: %d", method, rec.Code)
		}
	}
}
'''),
dict(id='c22-half-hash', property='C22', needs='the right password with a wrong user name',
 breaks='only the password is compared when the user names have the same length',
 edits=[('api/server.go','''	username_hash := sha256.Sum256([]byte(username))
	username_good := subtle.ConstantTimeCompare(
		username_hash[:], s.username_hash[:])
''','''	username_good := 0
	if len(username) == len(s.opts.Username) {
		username_hash := sha256.Sum256([]byte(username)[:len(username)/2])
		want_hash := sha256.Sum256([]byte(s.opts.Username)[:len(username)/2])
		username_good = subtle.ConstantTimeCompare(
			username_hash[:], want_hash[:])
	}
''')],
 pkg='api', demo='''package api_test

import (
	"net/http/httptest"
	"testing"

	"github.com/vivint/rothko/api"
)

func TestDemo(t *testing.T) {
	s := api.New(nil, nil, api.Options{Username: "admin", Password: "p"})
	for name, want := range map[string]int{"admin": 200, "admim": 401, "adxyz": 401, "a": 401} {
		rec := httptest.NewRecorder()
		req := httptest.NewRequest("GET", "/api/nonce", nil)
		req.SetBasicAuth(name, "p")
		s.ServeHTTP(rec, req)
		if rec.Code != want {
			t.Errorf("%s: %d", name, rec.Code)
		}
	}
}
'''),
dict(id='c23-short-labels', property='C23', needs='a window of fewer nanoseconds than there are labels',
 breaks='the distance of the labels is zero, so that they are made without end',
 edits=[('draw/graph/graph.go','	natural := naturalUnits[0]\n','	natural := chunk // for windows of less than an hour per label\n'),
 ('draw/graph/graph.go','	for _, unit := range naturalUnits[1:] {','	for _, unit := range naturalUnits {')],
 pkg='api', demo="""package api_test

import (
	"context"
	"net/http/httptest"
	"testing"
	"time"

	"github.com/vivint/rothko/api"
	"github.com/vivint/rothko/database"
)

type empty struct{ database.DB }

func (empty) Query(ctx context.Context, metric string, end int64, buf []byte, cb database.ResultCallback) error {
	return nil
}

func TestDemo(t *testing.T) {
	s := api.New(empty{}, nil, api.Options{})
	for _, d := range []string{"1h", "1m", "5ns"} {
		done := make(chan int, 1)
		go func() {
			rec := httptest.NewRecorder()
			s.ServeHTTP(rec, httptest.NewRequest("GET", "/api/render?metric=m&now=1000000000000000&duration="+d, nil))
			done <- rec.Code
		}()
		select {
		case code := <-done:
			if code != 200 {
				t.Fatalf("%s: %d", d, code)
			}
		case <-time.After(3 * time.Second):
			t.Fatalf("%s: no answer", d)
		}
	}
}
"""),
dict(id='c24-z', property='C24', needs='a name with the letter Z where the query has a z',
 breaks='Z is not lowered and does not match',
 edits=[('api/query/glob.go',"		if 'A' <= n && n <= 'Z' {","		if 'A' <= n && n < 'Z' {")],
 pkg='api/query', demo='''package query_test

import (
	"testing"

	"github.com/vivint/rothko/api/query"
)

func TestDemo(t *testing.T) {
	if !query.New("buzz", 1).Match("a.BuZZ") || !query.New("BUZZ", 1).Match("a.buzz") {
		t.Fatal("no match")
	}
}
'''),
dict(id='c25-earliest-alias', property='C25', needs='a window with at least two records of the same encoded size',
 breaks='the record sent as the newest is a view into a buffer that the later records overwrite',
 edits=[('api/server.go','				earliest = append(earliest[:0], buf...)','				earliest = buf')],
 pkg='api', demo='''package api_test

import (
	"bytes"
	"context"
	"encoding/json"
	"net/http/httptest"
	"testing"

	"github.com/vivint/rothko/api"
	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/dist/tdigest"
)

type two struct{ database.DB }

func enc(val float64, start, end int64) []byte {
	d, _ := tdigest.Params{Compression: 5}.New()
	d.Observe(val)
	out, _ := data.Record{Kind: "tdigest", Distribution: d.Marshal(nil), Observations: 1, Min: val, Max: val, StartTime: start, EndTime: end}.MarshalHelper()
	return out
}

func (two) Query(ctx context.Context, metric string, end int64, buf []byte, cb database.ResultCallback) error {
	for i := int64(0); i < 3; i++ {
		buf = append(buf[:0], enc(float64(i+1), 900-10*i, 910-10*i)...)
		if ok, err := cb(ctx, 900-10*i, 910-10*i, buf); !ok || err != nil {
			return err
		}
	}
	return nil
}

func TestDemo(t *testing.T) {
	s := api.New(two{}, nil, api.Options{})
	rec := httptest.NewRecorder()
	req := httptest.NewRequest("GET", "/api/render?metric=m&now=1000&duration=500ns", nil)
	req.Header.Set("Accept", "application/json")
	s.ServeHTTP(rec, req)
	var out struct{ Earliest []byte }
	if err := json.Unmarshal(rec.Body.Bytes(), &out); err != nil {
		t.Fatal(err, rec.Body.String())
	}
	if !bytes.Equal(out.Earliest, enc(1, 900, 910)) {
		t.Fatalf("%q", out.Earliest)
	}
}
'''.replace('out, _ := data.Record{','rec := data.Record{').replace('}.MarshalHelper()','}\n	out, _ := rec.Marshal()')),
dict(id='c26-kept-color', property='C26', needs='columns of one value each, or a canvas of one row',
 breaks='the color of the last value of the column before is taken for the first row',
 edits=[('draw/heatmap/heatmap.go','	last_index := -1\n	last_color := d.opts.Colors[0]\n','	last_index, last_color := d.last_index, d.last_color\n	defer func() { d.last_index, d.last_color = last_index, last_color }()\n'),
 ('draw/heatmap/heatmap.go','	width, height int\n','	width, height int\n\n	last_index int        // of the value\n	last_color draw.Color // and its color\n'),
 ('draw/heatmap/heatmap.go','		height:      height,\n','		height:      height,\n\n		last_index: -1,\n')],
 pkg='draw/heatmap', demo="""package heatmap_test

import (
	"context"
	"testing"

	"github.com/vivint/rothko/draw"
	"github.com/vivint/rothko/draw/heatmap"
)

func TestDemo(t *testing.T) {
	m := draw.NewRGB(3, 1)
	h := heatmap.New(heatmap.Options{Canvas: m, Colors: []draw.Color{{R: 1}, {R: 2}, {R: 3}}, Map: func(x float64) float64 { return x }})
	for i := 0; i < 3; i++ {
		h.Draw(context.Background(), draw.Column{X: i, W: 1, Data: []float64{float64(i) / 2, 1}})
	}
	for i := 0; i < 3; i++ {
		if got := m.Raw(i, 0)[0]; int(got) != i+1 {
			t.Errorf("%d: %d", i, got)
		}
	}
}
"""),
dict(id='c27-redact', property='C27', needs='a configuration with a tls section',
 breaks='the key is logged when the server starts',
 edits=[('config/config.go','	a.TLS.Key = "redacted"\n','')],
 pkg='config', demo='''package config_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/vivint/rothko/config"
)

func TestDemo(t *testing.T) {
	conf, err := config.Load([]byte(config.InitialConfig + "\\n[api.tls]\\nkey=\\"THEKEY\\"\\ncert=\\"THECERT\\"\\n[api.security]\\nusername=\\"THEUSER\\"\\npassword=\\"THEPASS\\"\\n"))
	if err != nil {
		t.Fatal(err)
	}
	if out := fmt.Sprintf("%+v", conf.API.Redact()); strings.Contains(out, "THE") {
		t.Fatal(out)
	}
}
'''),
dict(id='c28-maker-locked', property='C28', needs='a maker that uses the registry itself, or a slow one',
 breaks='the maker is called with the lock held, which blocks forever',
 edits=[('registry/registry.go','''	r.mu.Lock()
	maker, ok := r.databases[name]
	r.mu.Unlock()
''','''	r.mu.Lock()
	defer r.mu.Unlock()

	maker, ok := r.databases[name]
''')],
 pkg='registry', demo='''package registry_test

import (
	"context"
	"testing"
	"time"

	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/registry"
)

func TestDemo(t *testing.T) {
	var r registry.Registry
	r.RegisterDatabase("inner", registry.DatabaseMakerFunc(func(context.Context, interface{}) (database.DB, error) { return nil, nil }))
	r.RegisterDatabase("outer", registry.DatabaseMakerFunc(func(ctx context.Context, conf interface{}) (database.DB, error) {
		return r.NewDatabase(ctx, "inner", conf)
	}))
	done := make(chan error, 1)
	go func() {
		_, err := r.NewDatabase(context.Background(), "outer", nil)
		done <- err
	}()
	select {
	case err := <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(10 * time.Second):
		t.Fatal("blocked")
	}
}
'''),
dict(id='c29-last-error', property='C29', needs='two services that fail, one because it is told to stop',
 breaks='the error of the service that failed last is returned instead of the first one',
 edits=[('internal/junk/launcher.go','''		if err := <-errch; err != nil {
			return err
		}
		cancel() // if any task returns, cancel everything.
	}
	return nil''','''		if err := <-errch; err != nil {
			failed = err
		}
		cancel() // if any task returns, cancel everything.
	}
	return failed'''),('internal/junk/launcher.go','	errch := make(chan error, len(tasks))\n','	errch := make(chan error, len(tasks))\n	var failed error\n')],
 pkg='internal/junk', demo='''package junk_test

import (
	"context"
	"errors"
	"testing"

	"github.com/vivint/rothko/internal/junk"
)

func TestDemo(t *testing.T) {
	first := errors.New("first")
	err := junk.Launch(context.Background(),
		func(ctx context.Context) error { <-ctx.Done(); return ctx.Err() },
		func(ctx context.Context) error { return first },
	)
	if err != first {
		t.Fatal(err)
	}
}
'''),
dict(id='c30-text-template', property='C30', needs='a request whose metric contains markup',
 breaks='the metric is put into the page without escaping',
 edits=[('internal/tmplfs/fs.go','	"html/template"\n	"io/ioutil"\n	"net/http"\n	"os"\n	"strings"\n','	"io/ioutil"\n	"net/http"\n	"os"\n	"strings"\n	"text/template"\n')],
 pkg='internal/tmplfs', demo='''package tmplfs_test

import (
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/vivint/rothko/internal/tmplfs"
)

func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	if err := ioutil.WriteFile(filepath.Join(dir, "a.html"), []byte("<p>{{.metric}}</p>"), 0644); err != nil {
		t.Fatal(err)
	}
	rec := httptest.NewRecorder()
	tmplfs.New(http.Dir(dir)).ServeHTTP(rec, httptest.NewRequest("GET", "/a.html?metric=%3Cscript%3E", nil))
	if rec.Code != 200 || strings.Contains(rec.Body.String(), "<script>") {
		t.Fatal(rec.Code, rec.Body.String())
	}
}
'''),
]

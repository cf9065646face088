import sys; sys.path.insert(0,'/tmp/plant')
from s1 import DBH
OPEN='''	db := files.New(dir(t), files.Options{Size: 128, Cap: %d, Files: %d, Tuning: files.Tuning{Buffer: 4, Workers: 1, Handles: 8}})
	defer run(t, db)()
'''
SEEDS=[
dict(id='c02-now-bound', property='C02', needs='a value whose end is later than the clock of the reader',
 breaks='the latest value of a metric is hidden while its end is in the future: an earlier one, or nothing, is returned as the latest',
 edits=[('database/files/metric.go',"err = m.Read(ctx, 1<<63-1, buf,","err = m.Read(ctx, time.Now().UnixNano(), buf,"),('database/files/metric.go','"strings"\n','"strings"\n\t"time"\n')], pkg='database/files', demo=DBH+"""
func TestDemo(t *testing.T) {
"""+OPEN%(6,4)+"""	later := time.Now().Add(time.Hour).UnixNano()
	for _, end := range []int64{10, later} {
		if ok, err := put(t, db, "m", end - 5, end, []byte{1}); !ok || err != nil {
			t.Fatal(ok, err)
		}
	}
	_, end, _, err := db.QueryLatest(context.Background(), "m", nil)
	if err != nil || end != later {
		t.Fatal(end, err)
	}
}
"""),
dict(id='c03-full-file', property='C03', needs='a value that takes exactly all of the records of an empty data file',
 breaks='the value is refused as too large although it fits, and the room made for it has removed the oldest file',
 edits=[('database/files/metric.go','''		if head-nr < 0 {
			return false, Error.New("value too large for empty file")
''','''		if head-nr <= 0 {
			return false, Error.New("value too large for empty file")
''')], pkg='database/files', demo=DBH+'''
func TestDemo(t *testing.T) {
'''+OPEN%(3,2)+'''	for i := 0; i < 4; i++ {
		if ok, err := put(t, db, "m", int64(i*10), int64(i*10+5), bytes.Repeat([]byte{byte('a' + i)}, 40)); !ok || err != nil {
			t.Fatal(ok, err)
		}
	}
	// find the largest value that fits into an empty file of another metric with room to spare
	if ok, err := put(t, db, "m", 100, 105, make([]byte, 300)); !ok || err != nil {
		t.Fatal(ok, err)
	}
}
'''),
dict(id='c04-early-rotate', property='C04', needs='values that fill a data file exactly',
 breaks='the last slot of a data file is never used, so less is kept than the configured files hold',
 edits=[('database/files/metric.go','''	if head-nr < 0 {
		// if the value''','''	if head-nr < 1 {
		// if the value''')], pkg='database/files', demo=DBH+'''
func TestDemo(t *testing.T) {
'''+OPEN%(4,3)+'''	for i := 0; i < 80; i++ {
		if ok, err := put(t, db, "m", int64(i*10), int64(i*10+5), []byte{byte(i)}); !ok || err != nil {
			t.Fatal(ok, err)
		}
		if got, err := all(t, db, "m", 10000); err != nil || len(got) < 12 && len(got) <= i {
			t.Fatalf("after %d values only %d are kept: %v", i+1, len(got), err)
		}
	}
}
'''),
dict(id='c05-drain', property='C05', needs='a value that is queued in the window between the last look at the old queue and its closing',
 breaks='the callback of a value that gets into the queue just before it is closed is never called',
 edits=[('database/files/db.go','''	close(queue)
	for val := range queue {
		db.bufs.Put(val.data)
		if val.done != nil {
			val.done(false, nil)
		}
	}
''','''	defer close(queue)
	for len(queue) > 0 {
		val := <-queue
		db.bufs.Put(val.data)
		if val.done != nil {
			val.done(false, nil)
		}
	}
''')], pkg='database/files', demo=DBH+'''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	db := files.New(dir(t), files.Options{Size: 128, Cap: 4, Files: 1, Tuning: files.Tuning{Buffer: 2, Workers: 1, Handles: 8}})
	var wg sync.WaitGroup
	stop := make(chan bool)
	var mu sync.Mutex
	queued, called := 0, 0
	for i := 0; i < 6; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; ; j++ {
				select {
				case <-stop:
					return
				default:
				}
				mu.Lock()
				queued++
				mu.Unlock()
				c, cancel := context.WithTimeout(ctx, 50*time.Millisecond)
				db.Queue(c, "m", int64(j), int64(j+1), []byte("x"), func(bool, error) { mu.Lock(); called++; mu.Unlock() })
				cancel()
			}
		}()
	}
	for until := time.Now().Add(6 * time.Second); time.Now().Before(until); {
		end := run(t, db)
		time.Sleep(200 * time.Microsecond)
		end()
	}
	close(stop)
	wg.Wait()
	run(t, db)()
	time.Sleep(100 * time.Millisecond)
	if queued != called {
		t.Fatal(queued, called)
	}
}
'''),
dict(id='c10-backslash', property='C10', needs='names that differ in a backslash and a percent sign only',
 breaks='the two names share one directory, so that each reads what was written to the other',
 edits=[('database/files/convert.go',"			case '%':\n				buf = append(buf, \"%25\"...)","			case '%', '\\\\':\n				buf = append(buf, \"%25\"...)")],
 pkg='database/files', demo=DBH+'''
func TestDemo(t *testing.T) {
'''+OPEN%(4,1)+'''	put(t, db, "a\\\\b", 1, 2, []byte("x"))
	if got, err := all(t, db, "a%b", 100); err == nil && len(got) > 0 {
		t.Fatal(got)
	}
	if got, err := all(t, db, "a\\\\b", 100); err != nil || len(got) != 1 {
		t.Fatal(got, err)
	}
}
'''),
dict(id='c14-failed-count', property='C14', needs='a distribution that can not be created at first, and can be later',
 breaks='values that no distribution took are counted, so that the count of the record is not the weight of its distribution',
 edits=[('data/agg.go','''		if err == nil {
			a.dist = dist
		} else {
			return
		}
	}
	a.dist.Observe(val)
''','''		if err == nil {
			a.dist = dist
		}
	}
	if a.dist != nil {
		a.dist.Observe(val)
	}
''')], pkg='data', demo='''package data_test

import (
	"context"
	"errors"
	"testing"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/dist/tdigest"
)

type flaky struct {
	tdigest.Params
	calls *int
}

func (f flaky) New() (dist.Dist, error) {
	if *f.calls++; *f.calls == 1 {
		return nil, errors.New("not yet")
	}
	return f.Params.New()
}

func TestDemo(t *testing.T) {
	ctx := context.Background()
	w := data.NewWriter(flaky{tdigest.Params{Compression: 100}, new(int)})
	for i := 0; i < 3; i++ {
		w.Add(ctx, "m", float64(i), nil)
	}
	w.Capture(ctx, func(ctx context.Context, metric string, rec data.Record) bool {
		d, err := tdigest.Params{}.Unmarshal(rec.Distribution)
		if err != nil || d.Len() != rec.Observations {
			t.Error(rec.Observations, err)
		}
		return true
	})
}
'''),
dict(id='c16-wait-context', property='C16', needs='a dump whose context ends while the database has not answered yet',
 breaks='the dump returns before all the records it handed over have been answered',
 edits=[('dump/dump.go','	wg.Wait()\n','	waited := make(chan struct{})\n	go func() {\n		wg.Wait()\n		close(waited)\n	}()\n	select {\n	case <-waited:\n	case <-done:\n	}\n')],
 pkg='dump', demo='''package dump_test

import (
	"context"
	"sync/atomic"
	"testing"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/dump"
)

type late struct {
	database.DB
	cancel   func()
	answered int32
}

func (l *late) Queue(ctx context.Context, metric string, start, end int64, data []byte, cb func(bool, error)) error {
	l.cancel()
	go func() {
		time.Sleep(500 * time.Millisecond)
		atomic.StoreInt32(&l.answered, 1)
		cb(true, nil)
	}()
	return nil
}

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	w := data.NewWriter(tdigest.Params{Compression: 5})
	w.Add(ctx, "m", 1, nil)
	db := &late{cancel: cancel}
	dump.New(dump.Options{DB: db, Period: time.Hour}).Dump(ctx, w)
	if atomic.LoadInt32(&db.answered) == 0 {
		t.Fatal("returned too early")
	}
}
'''),
dict(id='c29-run-unlocked', property='C29', needs='a service queued at the very moment a launcher starts to run',
 breaks='the launcher takes its queue without the lock, so that a service can be lost or started twice',
 edits=[('internal/junk/launcher.go','''	l.mu.Lock()
	queue := l.queue
	l.queue = nil
	l.mu.Unlock()
''','''	queue := l.queue
	l.queue = nil
''')], pkg='internal/junk', flags='-race ', demo='''package junk_test

import (
	"context"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/vivint/rothko/internal/junk"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	for round := 0; round < 500; round++ {
		var l junk.Launcher
		var ran int32
		var wg sync.WaitGroup
		wg.Add(2)
		go func() {
			defer wg.Done()
			for i := 0; i < 20; i++ {
				l.Queue(func(context.Context) error { atomic.AddInt32(&ran, 1); return nil })
			}
		}()
		go func() {
			defer wg.Done()
			for i := 0; i < 20; i++ {
				l.Run(ctx)
			}
		}()
		wg.Wait()
		l.Run(ctx)
		if ran != 20 {
			t.Fatal(ran)
		}
	}
}
'''),
dict(id='c30-suffix-case', property='C30', needs='a file in the archive whose name ends in .HTML in upper case',
 breaks='files that are no pages are expanded as templates',
 edits=[('internal/tmplfs/fs.go','strings.HasSuffix(name, ".html")','strings.EqualFold(path.Ext(name), ".html")'),('internal/tmplfs/fs.go','	"os"\n	"strings"\n','	"os"\n	"path"\n	"strings"\n')],
 pkg='internal/tmplfs', demo='''package tmplfs_test

import (
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"testing"

	"github.com/vivint/rothko/internal/tmplfs"
)

func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	if err := ioutil.WriteFile(filepath.Join(dir, "a.HTML"), []byte("<p>{{.metric}}</p>"), 0644); err != nil {
		t.Fatal(err)
	}
	rec := httptest.NewRecorder()
	tmplfs.New(http.Dir(dir)).ServeHTTP(rec, httptest.NewRequest("GET", "/a.HTML?metric=x", nil))
	if rec.Code != 200 || rec.Body.String() != "<p>{{.metric}}</p>" {
		t.Fatal(rec.Code, rec.Body.String())
	}
}
'''),
dict(id='c31-error-lost', property='C31', needs='a database that can not store the values of the demo',
 breaks='the demo reports success although nothing was stored',
 edits=[('demo.go','''				if err := <-errors; err != nil {
					return errs.Wrap(err)
				}
''','''				<-errors
''')], pkg='.', demo_sh='''#!/bin/bash
# exit 0: the property held; otherwise it did not
export HOME="${HOME:-/root}" PATH="$PATH:/usr/local/bin:/usr/bin:/bin"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
tmp=$(mktemp -d) || exit 9
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/rothko" ./bin/rothko || exit 9
mkdir "$tmp/work"
echo x > "$tmp/work/file"
cat > "$tmp/work/c.toml" <<C
[main]
duration = "10m"
[database.files]
directory = "$tmp/work/file/below"
size = 256
cap = 100
files = 2
[dist.tdigest]
compression = 5.0
C
cd "$tmp/work"
if timeout 120 "$tmp/rothko" demo c.toml; then
	echo "the demo reports success"
	exit 1
fi
exit 0
'''),
dict(id='c26-axis-tick', property='C26', needs='an axis that must not bleed and is shorter than the text of one of its labels',
 breaks='the tick of a label without room for its text is not drawn',
 edits=[('draw/axis/axis.go',"""		for x := 0; x < tickSize; x++ {
			canvas.Set(maybeFlip(axisWidth+x), y, draw.Color{})
		}

		if m.opts.DontBleed && height > m.opts.Length {
			continue
		}
""","""		if m.opts.DontBleed && height > m.opts.Length {
			continue
		}

		for x := 0; x < tickSize; x++ {
			canvas.Set(maybeFlip(axisWidth+x), y, draw.Color{})
		}
""")], pkg='draw/axis', demo='''package axis_test

import (
	"context"
	"testing"

	"github.com/vivint/rothko/draw/axis"
	"github.com/vivint/rothko/draw/iosevka"
)

func TestDemo(t *testing.T) {
	out := axis.Draw(context.Background(), axis.Options{
		Face: iosevka.Iosevka, Labels: []axis.Label{{Position: 0.5, Text: "x"}}, Vertical: true, Length: 5, DontBleed: true,
	})
	img := out.AsImage()
	if r, g, b, _ := img.At(2, 2).RGBA(); r|g|b != 0 {
		t.Fatal("no tick", r, g, b)
	}
}
'''),
dict(id='c25-skip-broken', property='C25', needs='a stored record in the window that can not be decoded',
 breaks='the record is left out of the graph as if nothing had been stored',
 edits=[('api/server.go',"			if err := rec.Unmarshal(buf); err != nil {\n				return false, errs.Wrap(err)","			if err := rec.Unmarshal(buf); err != nil {\n				return end >= stop_before, nil")],
 pkg='api', demo='''package api_test

import (
	"context"
	"net/http/httptest"
	"testing"

	"github.com/vivint/rothko/api"
	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/dist/tdigest"
)

type fixed struct {
	database.DB
	vals [][]byte
}

func (f fixed) Query(ctx context.Context, metric string, end int64, buf []byte, cb database.ResultCallback) error {
	for i, v := range f.vals {
		if ok, err := cb(ctx, end-int64(i)*1000-1000, end-int64(i)*1000-1, append([]byte(nil), v...)); err != nil || !ok {
			return err
		}
	}
	return nil
}

func TestDemo(t *testing.T) {
	d, err := tdigest.Params{Compression: 100}.New()
	if err != nil {
		t.Fatal(err)
	}
	d.Observe(1)
	rec := data.Record{StartTime: 1e15 - 1000, EndTime: 1e15 - 1, Observations: 1, Kind: d.Kind(), Distribution: d.Marshal(nil), Merged: 1, Min: 1, Max: 1}
	good, err := rec.Marshal()
	if err != nil {
		t.Fatal(err)
	}
	srv := api.New(fixed{vals: [][]byte{good, good[:len(good)/2]}}, nil, api.Options{})
	w := httptest.NewRecorder()
	req := httptest.NewRequest("GET", "/api/render?metric=m&now=1000000000000000", nil)
	req.Header.Set("Accept", "application/json")
	srv.ServeHTTP(w, req)
	if w.Code < 500 {
		t.Fatal(w.Code, w.Body.String())
	}
}
'''),
]

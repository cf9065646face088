LP='database/files/lock_pool.go'; L='listener/graphite/listener.go'; SIG='internal/junk/signal.go'; W='data/writer.go'; FC='database/files/file_cache.go'; T='internal/tmplfs/fs.go'
SEEDS=[
dict(id='c35-lock-keep', property='C35', needs='very many different metrics over time, that need not exist',
 breaks='the lock of every metric name that was ever asked for is kept for as long as the database runs',
 edits=[(LP,'''	st.ref--
	if st.ref == 0 {
		delete(l.locks, key)
	}
''','''	st.ref--
''')],
 pkg='database/files',
 demo='''package files

import (
	"context"
	"fmt"
	"io/ioutil"
	"os"
	"runtime"
	"testing"
)

func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	ctx := context.Background()
	db := New(dir, Options{Size: 256, Cap: 4, Files: 2})
	ask := func(from, to int) uint64 {
		for i := from; i < to; i++ {
			db.QueryLatest(ctx, fmt.Sprintf("some.metric.that.is.not.there.%d", i), nil)
		}
		runtime.GC()
		runtime.GC()
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		return ms.HeapAlloc
	}
	before := ask(0, 2000)
	after := ask(2000, 12000)
	runtime.KeepAlive(db)
	if after > before+500000 {
		t.Fatalf("%d bytes are used instead of %d", after, before)
	}
}
'''),
dict(id='c35-dropped-files', property='C35', needs='values that are written until the oldest data files are removed, again and again',
 breaks='the file cache keeps an entry for the path of every data file that was ever removed',
 edits=[(FC,'''	if ok {
		delete(fch.toks, path)
		f, ok = fch.ch.Take(tok)
	}
''','''	if ok {
		f, ok = fch.ch.Take(tok)
	}
''')],
 pkg='database/files',
 demo='''package files

import (
	"context"
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	ctx := context.Background()
	name := strings.Repeat("x", 200)
	if err := os.MkdirAll(filepath.Join(dir, name), 0755); err != nil {
		t.Fatal(err)
	}
	fch := newFileCache(fileCacheOptions{Handles: 4, Size: 256, Cap: 1})
	at := int64(1)
	write := func(n int) uint64 {
		for i := 0; i < n; i++ {
			m, err := newMetric(ctx, metricOptions{dir: filepath.Join(dir, name), fch: fch, name: name, max: 2})
			if err != nil {
				t.Fatal(err)
			}
			ok, err := m.Write(ctx, at, at+1, []byte("x"))
			if err != nil || !ok {
				t.Fatal(err, ok)
			}
			at += 2
		}
		runtime.GC()
		runtime.GC()
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		return ms.HeapAlloc
	}
	before := write(500)
	after := write(3000)
	fch.Close()
	if after > before+500000 {
		t.Fatalf("%d bytes are used instead of %d", after, before)
	}
}
'''),
dict(id='c35-connection-goroutine', property='C35', needs='connections that come and go while the listener goes on',
 breaks='what closes a connection when the listener ends goes on after the connection is over, until the listener ends',
 edits=[(L,'''	ctx, cancel := context.WithCancel(ctx)
	defer cancel()

	wg.Add(1)
	go func() {
		defer wg.Done()
		<-ctx.Done()
		conn.Close()
	}()
''','''	defer conn.Close()

	go func() {
		<-ctx.Done()
		conn.Close()
	}()
''')],
 pkg='listener/graphite',
 demo='''package graphite

import (
	"context"
	"net"
	"runtime"
	"testing"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/dist/tdigest"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	w := data.NewWriter(tdigest.Params{Compression: 5})
	before := runtime.NumGoroutine()
	for i := 0; i < 50; i++ {
		ours, theirs := net.Pipe()
		done := make(chan error)
		go func() { done <- handleConn(ctx, w, theirs) }()
		if _, err := ours.Write([]byte("a 1 2\\n")); err != nil {
			t.Fatal(err)
		}
		ours.Close()
		<-done
	}
	for i := 0; i < 100 && runtime.NumGoroutine() > before+5; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	if n := runtime.NumGoroutine(); n > before+5 {
		t.Fatalf("%d goroutines instead of %d", n, before)
	}
}
'''),
dict(id='c35-signal-goroutine', property='C35', needs='many signal contexts that end without any signal',
 breaks='a signal context that ends keeps listening for the signal for good',
 edits=[(SIG,'''	go func() {
		defer signal.Stop(ch)

		select {
		case <-ctx.Done():
		case sig := <-ch:
			external.Infow("signal received",
				"signal", sig.String(),
			)
			cancel()
		}
	}()
''','''	go func() {
		defer signal.Stop(ch)

		sig := <-ch
		if ctx.Err() == nil {
			external.Infow("signal received",
				"signal", sig.String(),
			)
			cancel()
		}
	}()
''')],
 pkg='internal/junk',
 demo='''package junk

import (
	"context"
	"runtime"
	"syscall"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	before := runtime.NumGoroutine()
	for i := 0; i < 50; i++ {
		_, cancel := WithSignal(context.Background(), syscall.SIGUSR1)
		cancel()
	}
	for i := 0; i < 100 && runtime.NumGoroutine() > before+5; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	if n := runtime.NumGoroutine(); n > before+5 {
		t.Fatalf("%d goroutines instead of %d", n, before)
	}
}
'''),
dict(id='c35-page-keep', property='C35', needs='metrics that are captured once and not seen again',
 breaks='every capture begins the next one with all of the metrics of the one before, so that metrics that are over are kept',
 edits=[(W,'''	new_pi := unsafe.Pointer(newPage(now))
	if !atomic.''','''	next := newPage(now)
	p.m.Range(func(key, _ interface{}) bool {
		next.m.Store(key, newAgg(s.params, now))
		return true
	})
	new_pi := unsafe.Pointer(next)
	if !atomic.''')],
 pkg='dist/tdigest',
 demo='''package tdigest

import (
	"context"
	"fmt"
	"runtime"
	"testing"

	"github.com/vivint/rothko/data"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	w := data.NewWriter(Params{Compression: 5})
	seen := func(from, to int) uint64 {
		for i := from; i < to; i++ {
			w.Add(ctx, fmt.Sprintf("some.metric.%d", i), 1, nil)
			if i%100 == 99 {
				w.Capture(ctx, func(context.Context, string, data.Record) bool { return true })
			}
		}
		runtime.GC()
		runtime.GC()
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		return ms.HeapAlloc
	}
	before := seen(0, 200)
	after := seen(200, 2200)
	runtime.KeepAlive(w)
	if after > before+300000 {
		t.Fatalf("%d bytes are used instead of %d", after, before)
	}
}
'''),
]

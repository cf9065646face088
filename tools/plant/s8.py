W='database/files/db_write.go'; R='database/files/db_read.go'; S='api/server.go'
SEEDS=[
dict(id='c06-callback-lock', property='C06', needs='a callback of a write that queries the metric it has just written',
 breaks='the callback runs while the lock of its metric is held, so that a query of that metric in it never returns',
 edits=[(W,"	// lock the metric\n	db.locks.Lock(value.metric)\n	defer db.locks.Unlock(value.metric)\n\n",""),
  (W,"			ok, err := db.write(ctx, num, value)\n			db.bufs.Put(value.data)\n			if value.done != nil {\n				value.done(ok, err)\n			}\n",
   "			// lock the metric\n			db.locks.Lock(value.metric)\n			ok, err := db.write(ctx, num, value)\n			db.bufs.Put(value.data)\n			if value.done != nil {\n				value.done(ok, err)\n			}\n			db.locks.Unlock(value.metric)\n")],
 pkg='database/files', demo='''package files_test

import (
	"context"
	"testing"
	"time"

	"github.com/vivint/rothko/database/files"
)

func TestDemo(t *testing.T) {
	db := files.New(t.TempDir(), files.Options{Size: 256, Cap: 10, Files: 2, Tuning: files.Tuning{Buffer: 1, Workers: 2, Handles: 2}})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	go db.Run(ctx)
	got := make(chan string, 1)
	db.Queue(ctx, "m", 1, 2, []byte("value"), func(ok bool, err error) {
		_, _, data, _ := db.QueryLatest(ctx, "m", nil)
		got <- string(data)
	})
	select {
	case data := <-got:
		if data != "value" {
			t.Fatalf("%q", data)
		}
	case <-time.After(20 * time.Second):
		t.Fatal("the query in the callback does not return")
	}
}
'''),
dict(id='c09-list-lock', property='C09', needs='a listing whose consumer waits for another listing, or for a walk, in the middle',
 breaks='the listing holds the lock of the names while it calls its consumer, so that everything that lists in the meantime waits for it, and forever if the consumer waits for that',
 edits=[(R,"	db.names_mu.Unlock()\n\n	// yay do callbacks\n","	defer db.names_mu.Unlock()\n\n	// yay do callbacks\n")],
 pkg='database/files', demo='''package files_test

import (
	"context"
	"testing"
	"time"

	"github.com/vivint/rothko/database/files"
)

func TestDemo(t *testing.T) {
	db := files.New(t.TempDir(), files.Options{Size: 256, Cap: 10, Files: 2, Tuning: files.Tuning{Buffer: 1, Workers: 2, Handles: 2}})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	go db.Run(ctx)
	put := make(chan bool, 1)
	db.Queue(ctx, "m", 1, 2, []byte("value"), func(ok bool, err error) { put <- ok })
	<-put
	done := make(chan int, 1)
	go func() {
		n := 0
		db.Metrics(ctx, func(string) (bool, error) {
			db.Metrics(ctx, func(string) (bool, error) { n++; return true, nil })
			return true, nil
		})
		done <- n
	}()
	select {
	case n := <-done:
		if n != 1 {
			t.Fatal(n)
		}
	case <-time.After(20 * time.Second):
		t.Fatal("the listing does not end")
	}
}
'''),
dict(id='c09-first-file', property='C09', needs='a restarted database in which a metric with more than one data file is written before the scan of the directory has been published',
 breaks='a listing after the acknowledgement does not have the name, as only the first file of a metric is taken for a new name',
 edits=[(W,"	if ok {\n		should_store := false\n","	if ok && met.last == 1 {\n		should_store := false\n")],
 pkg='database/files', demo='''package files_test

import (
	"context"
	"os"
	"path/filepath"
	"syscall"
	"testing"

	"github.com/vivint/rothko/database/files"
)

func TestDemo(t *testing.T) {
	opts := files.Options{Size: 256, Cap: 2, Files: 3, Tuning: files.Tuning{Buffer: 1, Workers: 1, Handles: 2}}
	dir := t.TempDir()
	ctx := context.Background()
	run := func(n int, from int64, then func(db *files.DB)) {
		db := files.New(dir, opts)
		rctx, cancel := context.WithCancel(ctx)
		done := make(chan error, 1)
		go func() { done <- db.Run(rctx) }()
		for i := int64(0); i < int64(n); i++ {
			put := make(chan bool, 1)
			db.Queue(ctx, "m", from+i, from+i+1, []byte("value"), func(ok bool, err error) { put <- ok && err == nil })
			if !<-put {
				t.Fatal("not written")
			}
		}
		then(db)
		cancel()
		<-done
	}
	run(5, 0, func(*files.DB) {})

	// the scan of the directory waits at this one until somebody writes to it
	pipe := filepath.Join(dir, "pipe")
	if err := syscall.Mkfifo(pipe, 0600); err != nil {
		t.Fatal(err)
	}
	run(1, 10, func(db *files.DB) {
		n := 0
		err := db.Metrics(ctx, func(name string) (bool, error) { n++; return true, nil })
		if err != nil || n != 1 {
			t.Errorf("%d names are listed after a write (%v)", n, err)
		}
		fh, err := os.OpenFile(pipe, os.O_RDWR, 0)
		if err != nil {
			t.Fatal(err)
		}
		defer fh.Close()
		os.Remove(pipe)
	})
}
'''),
dict(id='c22-lockout', property='C22', needs='a few hundred requests with wrong credentials to one server',
 breaks='the right credentials are refused from then on',
 edits=[(S,"	nonce         string\n}","	nonce         string\n\n	// failed is the number of requests with wrong credentials.\n	failed int64\n}"),
  (S,'	"net/http"\n','	"net/http"\n	"sync/atomic"\n'),
  (S,"		if !ok || !s.validAuth(ctx, username, password) {","		const attempts = 200\n		if atomic.LoadInt64(&s.failed) > attempts || !ok || !s.validAuth(ctx, username, password) {\n			atomic.AddInt64(&s.failed, 1)")],
 pkg='api', demo='''package api

import (
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	srv := New(nil, nil, Options{Username: "user", Password: "pass"})
	ask := func(pass string) int {
		req := httptest.NewRequest("GET", "/api/nonce", nil)
		req.SetBasicAuth("user", pass)
		rec := httptest.NewRecorder()
		srv.ServeHTTP(rec, req)
		return rec.Code
	}
	for i := 0; i < 1000; i++ {
		if code := ask("wrong"); code != 401 {
			t.Fatal(code)
		}
	}
	if code := ask("pass"); code != 200 {
		t.Fatal(code)
	}
}
'''),
dict(id='c23-lost-slot', property='C23', needs='64 requests whose query fails',
 breaks='each of them keeps a slot of the limited number of queries, so that the server answers no other request for a graph afterwards',
 edits=[(S,"	nonce         string\n}","	nonce         string\n\n	// slots limits the number of queries at a time.\n	slots chan struct{}\n}"),
  (S,"		nonce:         hex.EncodeToString(nonce),\n","		nonce:         hex.EncodeToString(nonce),\n		slots:         make(chan struct{}, 64),\n"),
  (S,"	// run the query\n	err = s.db.Query(","	// run the query, not too many at once\n	s.slots <- struct{}{}\n	err = s.db.Query("),
  (S,"	// grab the columns\n","	// grab the columns\n	<-s.slots\n")],
 pkg='api', demo='''package api

import (
	"context"
	"errors"
	"net/http/httptest"
	"testing"
	"time"

	"github.com/vivint/rothko/database"
)

type broken struct{ database.DB }

func (broken) Query(context.Context, string, int64, []byte, database.ResultCallback) error {
	return errors.New("broken")
}

func TestDemo(t *testing.T) {
	srv := New(broken{}, nil, Options{})
	done := make(chan bool)
	go func() {
		for i := 0; i < 1000; i++ {
			srv.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/api/render?metric=m", nil))
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(40 * time.Second):
		t.Fatal("the server does not answer any more")
	}
}
'''),
dict(id='c29-signal-buffer', property='C29', needs='a signal that arrives before the goroutine that waits for it has run, as on a busy machine',
 breaks='the signal is lost, and the context does not end',
 edits=[('internal/junk/signal.go',"	ch := make(chan os.Signal, len(sigs))\n","	ch := make(chan os.Signal)\n")],
 pkg='internal/junk', demo='''package junk

import (
	"context"
	"os"
	"os/signal"
	"runtime"
	"sync"
	"syscall"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	guard := make(chan os.Signal, 100)
	signal.Notify(guard, syscall.SIGUSR1)
	defer signal.Stop(guard)
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	for k := 0; k < 5; k++ {
		var wg sync.WaitGroup
		for i := 0; i < 150; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for until := time.Now().Add(3 * time.Millisecond); time.Now().Before(until); {
				}
			}()
		}
		ctx, cancel := WithSignal(context.Background(), syscall.SIGUSR1)
		go func() {}()
		syscall.Kill(os.Getpid(), syscall.SIGUSR1)
		select {
		case <-ctx.Done():
		case <-time.After(10 * time.Second):
			t.Fatal("the context does not end with its signal")
		}
		cancel()
		wg.Wait()
	}
}
'''),
]

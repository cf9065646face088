// Monitors of what is left behind: they do the same kind of thing very many
// times, and compare the live memory, goroutines, descriptors and mappings
// there are once it is over.
package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/vivint/rothko/api"
	"github.com/vivint/rothko/config"
	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/dump"
	"github.com/vivint/rothko/internal/junk"
	"github.com/vivint/rothko/internal/tgzfs"
	"github.com/vivint/rothko/internal/tmplfs"
	"github.com/vivint/rothko/internal/zzverif/hk"
	"github.com/vivint/rothko/listener/graphite"
	"github.com/vivint/rothko/merge"
	"github.com/vivint/rothko/registry"
)

var ctx = context.Background()

func main() {
	hk.Main(map[string]func(*hk.Run){"C35": c35})
}

// usage is what the process has at some instant.
type usage struct {
	heap, goroutines, fds, maps int64
}

func lines(path string) int64 {
	b, _ := ioutil.ReadFile(path)
	return int64(bytes.Count(b, []byte(".data\n")))
}

func entries(path string) int64 {
	dh, err := os.Open(path)
	if err != nil {
		return 0
	}
	defer dh.Close()
	names, _ := dh.Readdirnames(-1)
	return int64(len(names))
}

func measure() usage {
	// what is in pools is gone after two collections
	runtime.GC()
	runtime.GC()
	runtime.GC()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return usage{int64(ms.HeapAlloc), int64(runtime.NumGoroutine()), entries("/proc/self/fd"), lines("/proc/self/maps")}
}

// least is the least of everything in a while.
func least(good func(usage) bool) usage {
	var min usage
	for i := 0; i < 60; i++ {
		u := measure()
		if i == 0 {
			min = u
		}
		for _, p := range [][2]*int64{{&min.heap, &u.heap}, {&min.goroutines, &u.goroutines}, {&min.fds, &u.fds}, {&min.maps, &u.maps}} {
			if *p[1] < *p[0] {
				*p[0] = *p[1]
			}
		}
		if good(min) {
			break
		}
		hk.Progress()
		time.Sleep(time.Duration(i*5) * time.Millisecond)
	}
	return min
}

// slack is what the heap may grow by in any case.
const slack = 192 << 10

// steady does something n times to get going, and compares what is used after
// twice as many more. everything of one kind that is kept for each of them shows.
func steady(c *hk.C, n int, op func(i int)) {
	do := func(from, to int) {
		for i := from; i < to && !c.Failed(); i++ {
			op(i)
			hk.Progress()
		}
	}
	c.Guard(c.Section, func() {
		do(0, n)
		runs := 0
		before := least(func(usage) bool { runs++; return runs == 4 })
		do(n, 3*n)
		if c.Failed() {
			return
		}
		more := int64(2 * n)
		good := func(after usage) bool {
			return after.goroutines <= before.goroutines+4+more/20 &&
				after.fds <= before.fds+4+more/20 &&
				after.maps <= before.maps+4+more/20 &&
				after.heap <= before.heap+slack+16*more
		}
		after := least(good)
		runtime.KeepAlive(op) // and everything it works with
		c.Logf("%s: before %+v, after %d more %+v", c.Section, before, more, after)
		c.Count("operations:"+c.Section, 3*int64(n))
		c.Count("operations", 3*int64(n))
		c.R.Max("goroutines", after.goroutines)
		c.R.Max("bytes grown at most", after.heap-before.heap)
		c.Sig(c.Section, c.Index)
		c.NonTrivial()
		if !good(after) {
			c.Failf("left", "after %d more of %q there are %d goroutines, %d descriptors, %d mapped data files and %d bytes in use, before there were %d, %d, %d and %d",
				more, c.Section, after.goroutines, after.fds, after.maps, after.heap,
				before.goroutines, before.fds, before.maps, before.heap)
		}
	})
}

func name(c *hk.C, i int) string {
	return fmt.Sprintf("%s.%d.%d", c.PickS("metric", "some.other", "a.b.c.d.e.f"), c.Index, i)
}

// node is a running database.
type node struct {
	*files.DB
	dir    string
	cancel func()
	done   chan error
}

func start(dir string, opts files.Options) *node {
	cctx, cancel := context.WithCancel(ctx)
	n := &node{files.New(dir, opts), dir, cancel, make(chan error, 1)}
	go func() { n.done <- n.DB.Run(cctx) }()
	return n
}

func (n *node) stop() {
	n.cancel()
	<-n.done
}

func (n *node) put(metric string, start, end int64, data []byte) (ok bool) {
	ch := make(chan bool, 2)
	n.Queue(ctx, metric, start, end, data, func(ok bool, err error) { ch <- ok })
	return <-ch
}

func options(c *hk.C) files.Options {
	return files.Options{
		Size: c.Pick(128, 256, 512), Cap: c.Range(2, 6), Files: c.Range(1, 3),
		Tuning: files.Tuning{Buffer: c.Pick(0, 10), Handles: c.Pick(1, 4, 64), Workers: c.Range(1, 2)},
	}
}

// withDB runs something with a database that has some values.
func withDB(c *hk.C, fn func(n *node)) {
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	n := start(dir, options(c))
	defer n.stop()
	for i := int64(1); i < 10; i++ {
		n.put("a.b", i*10-10, i*10, c.Bytes(50))
		n.put("c", i*10-10, i*10, c.Bytes(10))
	}
	fn(n)
}

func all(ctx context.Context, start, end int64, data []byte) (bool, error) { return true, nil }

// PlugDB answers at once, and has the records that are rendered.
type PlugDB struct {
	recs [][]byte
	at   []int64
	fail bool
}

func (db *PlugDB) Run(ctx context.Context) error { <-ctx.Done(); return nil }

func (db *PlugDB) Queue(ctx context.Context, metric string, start, end int64, data []byte, cb func(bool, error)) error {
	if db.fail {
		if start%2 == 0 {
			return errors.New("broken")
		}
		cb(false, errors.New("broken"))
		return nil
	}
	cb(true, nil)
	return nil
}

func (db *PlugDB) Query(ctx context.Context, metric string, end int64, buf []byte, cb database.ResultCallback) error {
	if db.fail {
		return errors.New("broken")
	}
	for i, rec := range db.recs {
		if db.at[i] >= end {
			continue
		}
		ok, err := cb(ctx, db.at[i]-1e9, db.at[i], rec)
		if !ok || err != nil {
			return err
		}
	}
	return nil
}

func (db *PlugDB) QueryLatest(ctx context.Context, metric string, buf []byte) (start, end int64, data []byte, err error) {
	err = db.Query(ctx, metric, 1<<63-1, buf, func(_ context.Context, s, e int64, d []byte) (bool, error) {
		start, end, data = s, e, d
		return false, nil
	})
	return start, end, data, err
}

func (db *PlugDB) Metrics(ctx context.Context, cb func(name string) (bool, error)) error {
	for i := 0; i < 100; i++ {
		if ok, err := cb(fmt.Sprintf("metric.%d", i)); !ok || err != nil {
			return err
		}
	}
	return nil
}

func record(c *hk.C, start, end int64) data.Record {
	d, err := tdigest.Params{Compression: 5}.New()
	if err != nil {
		panic("harness: " + err.Error())
	}
	for i := 0; i < 20; i++ {
		d.Observe(c.Float() * 100)
	}
	return data.Record{StartTime: start, EndTime: end, Observations: 20, Distribution: d.Marshal(nil),
		Kind: "tdigest", Min: 0, Max: 100, MinId: []byte("x"), MaxId: []byte("y"), Merged: 1}
}

const now = int64(1500000000e9)

func plugDB(c *hk.C) *PlugDB {
	db := &PlugDB{}
	for i := int64(1); i < 20; i++ {
		end := now - i*1e9
		rec := record(c, end-1e9, end)
		b, err := rec.Marshal()
		if err != nil {
			panic("harness: " + err.Error())
		}
		db.recs = append(db.recs, b)
		db.at = append(db.at, end)
	}
	return db
}

// sink is a response that is not kept.
type sink struct{ h http.Header }

func (s sink) Header() http.Header         { return s.h }
func (s sink) Write(p []byte) (int, error) { return len(p), nil }
func (s sink) WriteHeader(int)             {}

func ask(srv http.Handler, req *http.Request) {
	// a net/http server stops a handler that panics with this
	defer func() {
		if r := recover(); r != nil && r != http.ErrAbortHandler {
			panic(r)
		}
	}()
	srv.ServeHTTP(sink{make(http.Header)}, req)
}

func freePort() string {
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer lis.Close()
	return lis.Addr().String()
}

// dial connects, waiting for the listener to come up.
func dial(c *hk.C, addr string) net.Conn {
	for i := 0; ; i++ {
		conn, err := net.Dial("tcp", addr)
		if err == nil {
			return conn
		}
		if i == 2000 {
			c.R.Count("unreachable", 1)
			return nil
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// listening runs a graphite listener.
func listening(c *hk.C, fn func(addr string, w *data.Writer)) {
	w := data.NewWriter(tdigest.Params{Compression: 5})
	for try := 0; try < 10; try++ {
		addr := freePort()
		cctx, cancel := context.WithCancel(ctx)
		done := make(chan error, 1)
		go func() { done <- graphite.New(addr).Run(cctx, w) }()
		select {
		case <-done: // somebody else took the port
			cancel()
			continue
		case <-time.After(50 * time.Millisecond):
		}
		fn(addr, w)
		cancel()
		<-done
		return
	}
}

// count adds up what was captured.
func count(w *data.Writer) (n int64) {
	w.Capture(ctx, func(_ context.Context, _ string, rec data.Record) bool {
		n += rec.Observations
		return true
	})
	return n
}

// received captures until so many observations were there.
func received(w *data.Writer, want int64) {
	var n int64
	for i := 0; n < want && i < 20; i++ { // some may be lost, which is documented
		n += count(w)
		if n < want {
			time.Sleep(time.Millisecond)
		}
	}
}

func c35(r *hk.Run) {
	r.Rule("each case does one kind of thing n times, and then 2n times more, always with other inputs: in between and in the end the live heap, goroutines, descriptors and mapped data files are measured after collections, and may not have grown by something for each")

	run := func(section string, quick int, fn func(c *hk.C, n int)) {
		r.Cases(section, r.N(2, 12), 1, func(c *hk.C) { fn(c, quick) })
	}

	//
	// the database
	//

	run("unknown metrics", 5000, func(c *hk.C, n int) {
		withDB(c, func(db *node) {
			steady(c, n, func(i int) {
				if i%2 == 0 {
					db.Query(ctx, name(c, i), now, nil, all)
				} else {
					db.QueryLatest(ctx, name(c, i), nil)
				}
			})
		})
	})
	run("queries", 5000, func(c *hk.C, n int) {
		withDB(c, func(db *node) {
			cctx, cancel := context.WithCancel(ctx)
			cancel()
			steady(c, n, func(i int) {
				switch i % 4 {
				case 0:
					db.Query(ctx, "a.b", int64(i), nil, all)
				case 1:
					db.QueryLatest(ctx, "c", nil)
				case 2:
					db.Query(ctx, "a.b", now, nil, func(context.Context, int64, int64, []byte) (bool, error) {
						return i%8 == 2, errors.New("enough")
					})
				case 3:
					db.Query(cctx, "c", now, nil, all)
				}
			})
		})
	})
	run("refused values", 4000, func(c *hk.C, n int) {
		withDB(c, func(db *node) {
			large := make([]byte, 10000)
			steady(c, n, func(i int) {
				v := large[:10]
				if i%2 == 0 {
					v = large
				}
				if db.put("a.b", 1, 2, v) {
					c.R.Count("stored", 1)
				}
			})
		})
	})
	run("values", 3000, func(c *hk.C, n int) {
		withDB(c, func(db *node) {
			v := c.Bytes(100)
			steady(c, n, func(i int) {
				end := now + int64(i)
				if !db.put("a.b", end-1, end, v[:i%100]) {
					c.R.Count("refused", 1)
				}
			})
		})
	})
	run("canceled values", 4000, func(c *hk.C, n int) {
		dir := c.R.TempDir()
		defer os.RemoveAll(dir)
		opts := options(c)
		opts.Tuning.Buffer = 0
		db := files.New(dir, opts) // nothing receives
		cctx, cancel := context.WithCancel(ctx)
		cancel()
		steady(c, n, func(i int) {
			db.Queue(cctx, name(c, i), 1, 2, nil, func(bool, error) {})
		})
	})
	run("listings", 1500, func(c *hk.C, n int) {
		withDB(c, func(db *node) {
			steady(c, n, func(i int) {
				if i%4 == 0 {
					db.PopulateMetrics(ctx)
				}
				db.Metrics(ctx, func(string) (bool, error) { return i%3 > 0, nil })
			})
		})
	})
	run("databases", 150, func(c *hk.C, n int) {
		dir := c.R.TempDir()
		defer os.RemoveAll(dir)
		steady(c, n, func(i int) {
			db := start(dir, options(c))
			db.put("a", int64(i), int64(i+1), nil)
			db.Query(ctx, "a", now, nil, all)
			db.stop()
		})
	})

	//
	// aggregation
	//

	run("captures", 1500, func(c *hk.C, n int) {
		w := data.NewWriter(tdigest.Params{Compression: 5})
		steady(c, n, func(i int) {
			for j := 0; j < 5; j++ {
				w.Add(ctx, name(c, i*5+j), float64(j), []byte(name(c, j)))
			}
			w.Add(ctx, "always", float64(i), []byte(name(c, i)))
			if i%3 == 0 {
				w.Iterate(ctx, func(context.Context, string, data.Record) bool { return i%2 == 0 })
			}
			w.Capture(ctx, func(context.Context, string, data.Record) bool { return i%5 > 0 })
		})
	})
	run("observations", 20000, func(c *hk.C, n int) {
		w := data.NewWriter(tdigest.Params{Compression: 5})
		steady(c, n, func(i int) {
			w.Add(ctx, "always", float64(i*7919%100003), []byte(fmt.Sprint(i)))
		})
	})
	run("dumps", 1000, func(c *hk.C, n int) {
		w := data.NewWriter(tdigest.Params{Compression: 5})
		db := &PlugDB{}
		d := dump.New(dump.Options{DB: db, Period: time.Hour})
		steady(c, n, func(i int) {
			db.fail = i%2 == 0
			for j := 0; j < 4; j++ {
				w.Add(ctx, name(c, i*4+j), float64(j), nil)
			}
			d.Dump(ctx, w)
		})
	})
	run("dumpers", 400, func(c *hk.C, n int) {
		w := data.NewWriter(tdigest.Params{Compression: 5})
		steady(c, n, func(i int) {
			d := dump.New(dump.Options{DB: &PlugDB{}, Period: time.Hour})
			cctx, cancel := context.WithCancel(ctx)
			done := make(chan struct{})
			go func() { d.Run(cctx, w); close(done) }()
			cancel()
			<-done
		})
	})

	//
	// the listener
	//

	run("connections", 400, func(c *hk.C, n int) {
		listening(c, func(addr string, w *data.Writer) {
			steady(c, n, func(i int) {
				conn := dial(c, addr)
				if conn == nil {
					return
				}
				fmt.Fprintf(conn, "%s %d 1\nnot a line %d\n", name(c, i), i, i)
				switch i % 4 {
				case 0:
					fmt.Fprintf(conn, "half %d", i)
				case 1:
					conn.(*net.TCPConn).SetLinger(0)
					received(w, 1)
				case 2:
					conn.(*net.TCPConn).CloseWrite()
				}
				if i%4 != 1 {
					received(w, 1)
				}
				conn.Close()
			})
		})
	})
	run("lines", 1500, func(c *hk.C, n int) {
		listening(c, func(addr string, w *data.Writer) {
			conn := dial(c, addr)
			if conn == nil {
				return
			}
			defer conn.Close()
			long := strings.Repeat("x", 100000)
			steady(c, n, func(i int) {
				fmt.Fprintf(conn, "%s %d 1\n%d not a line\nx nan%d 1\n", name(c, i), i, i, i)
				if i%20 == 0 {
					fmt.Fprintf(conn, "%s\n", long)
				}
				received(w, 1)
			})
		})
	})
	run("listeners", 200, func(c *hk.C, n int) {
		w := data.NewWriter(tdigest.Params{Compression: 5})
		steady(c, n, func(i int) {
			cctx, cancel := context.WithCancel(ctx)
			done := make(chan struct{})
			addr := "127.0.0.1:0"
			if i%10 == 0 {
				addr = "nowhere"
			}
			go func() { graphite.New(addr).Run(cctx, w); close(done) }()
			if i%3 == 0 {
				time.Sleep(time.Millisecond)
			}
			cancel()
			<-done
			count(w)
		})
	})

	//
	// the interface
	//

	run("searches", 4000, func(c *hk.C, n int) {
		srv := api.New(plugDB(c), nil, api.Options{})
		steady(c, n, func(i int) {
			path := c.PickS("/api/query", "/api/query", "/api/query", "/api/nonce", "/other")
			req := httptest.NewRequest("GET", fmt.Sprintf("%s?query=met%d.%d&results=%d", path, c.Index, i, i%50), nil)
			ask(srv, req)
		})
	})
	run("refused requests", 3000, func(c *hk.C, n int) {
		srv := api.New(plugDB(c), nil, api.Options{Username: "user", Password: "password"})
		steady(c, n, func(i int) {
			req := httptest.NewRequest("GET", fmt.Sprintf("/api/query?query=%d", i), nil)
			req.RemoteAddr = fmt.Sprintf("10.%d.%d.%d:%d", c.Index, i>>8&255, i&255, 1024+i)
			if i%3 > 0 {
				req.SetBasicAuth(fmt.Sprintf("user%d", i), fmt.Sprint(i))
			}
			ask(srv, req)
		})
	})
	run("failing requests", 3000, func(c *hk.C, n int) {
		db := plugDB(c)
		db.fail = true
		srv := api.New(db, nil, api.Options{})
		steady(c, n, func(i int) {
			req := httptest.NewRequest("GET", fmt.Sprintf("/api/render?metric=m%d&now=%d&duration=%dns&width=100&height=50", i, now, 5e9), nil)
			if i%3 == 0 {
				req = httptest.NewRequest("GET", fmt.Sprintf("/api/render?metric=m%d&width=-%d", i, i), nil)
			}
			ask(srv, req)
		})
	})
	run("renders", 150, func(c *hk.C, n int) {
		srv := api.New(plugDB(c), nil, api.Options{})
		steady(c, n, func(i int) {
			req := httptest.NewRequest("GET", fmt.Sprintf("/api/render?metric=m%d&now=%d&duration=%dns&width=%d&height=60&padding=0",
				i, now-int64(i), int64(15e9), 200+i%100), nil)
			if i%2 == 0 {
				req.Header.Set("Accept", "application/json")
			}
			ask(srv, req)
		})
	})
	run("clients", 250, func(c *hk.C, n int) {
		srv := httptest.NewServer(api.New(plugDB(c), nil, api.Options{}))
		defer srv.Close()
		addr := srv.Listener.Addr().String()
		steady(c, n, func(i int) {
			conn := dial(c, addr)
			if conn == nil {
				return
			}
			fmt.Fprintf(conn, "GET /api/query?query=%d HTTP/1.1\r\nHost: x\r\n", i)
			if i%3 > 0 {
				fmt.Fprintf(conn, "Connection: close\r\n\r\n")
			}
			if i%3 == 1 {
				io.Copy(ioutil.Discard, conn)
			}
			conn.Close()
		})
	})
	run("static files", 5000, func(c *hk.C, n int) {
		var buf bytes.Buffer
		gz := gzip.NewWriter(&buf)
		tw := tar.NewWriter(gz)
		add := func(name, text string) {
			tw.WriteHeader(&tar.Header{Name: name, Mode: 0644, Size: int64(len(text)), Typeflag: tar.TypeReg, ModTime: time.Unix(1500000000, 0)})
			io.WriteString(tw, text)
		}
		add("index.html", "<html>{{ . }}</html>")
		add("plain.html", "<html></html>")
		add("a.js", strings.Repeat("x", 5000))
		tw.Close()
		gz.Close()
		fs, err := tgzfs.New(buf.Bytes())
		if err != nil {
			c.Failf("archive", "%v", err)
			return
		}
		srv := api.New(plugDB(c), tmplfs.New(fs), api.Options{})
		steady(c, n, func(i int) {
			path := c.PickS("/", "/plain.html", "/a.js", "/none"+fmt.Sprint(i), "/none/"+fmt.Sprint(i)+".html", "/a.js/", "/x/../a.js")
			req := httptest.NewRequest(c.PickS("GET", "GET", "HEAD", "POST"), "/", nil)
			req.URL.Path = path
			req.URL.RawQuery = fmt.Sprintf("v=%d", i)
			ask(srv, req)
		})
	})

	//
	// everything else
	//

	run("services", 2000, func(c *hk.C, n int) {
		var l junk.Launcher
		steady(c, n, func(i int) {
			for j := 0; j < 3; j++ {
				j := j
				l.Queue(func(ctx context.Context) error {
					if j > 0 {
						<-ctx.Done()
					}
					if i%2 == 0 {
						return errors.New("over")
					}
					return nil
				})
			}
			cctx, cancel := junk.WithSignal(ctx, syscall.SIGUSR1)
			l.Run(cctx)
			cancel()
			junk.Launch(ctx)
			var f junk.Flag
			if f.Start() == nil {
				f.Stop()
			}
		})
	})
	run("configurations", 1000, func(c *hk.C, n int) {
		steady(c, n, func(i int) {
			doc := fmt.Sprintf("[main]\nduration = \"%ds\"\n[[listeners.graphite]]\naddress = \"a%d\"\n[database.files]\ndirectory = \"d%d\"\n[dist.tdigest]\ncompression = 5.0\n[api]\naddress = \"b%d\"\n", i+1, i, i, i)
			if i%4 == 0 {
				doc = doc[:len(doc)-i%100-1]
			}
			conf, err := config.Load([]byte(doc))
			if err == nil {
				conf.WriteTo(ioutil.Discard)
				json.Marshal(conf.API.Redact())
				for _, e := range conf.Listeners {
					registry.NewListener(ctx, e.Kind, e.Config)
				}
				registry.NewDistribution(ctx, conf.Dist.Kind, conf.Dist.Config)
				registry.NewDatabase(ctx, conf.Database.Kind, conf.Database.Config)
			}
			var reg registry.Registry
			for j := 0; j < 3; j++ {
				reg.RegisterDistribution("x", registry.DistributionMakerFunc(func(context.Context, interface{}) (dist.Params, error) {
					return nil, errors.New("none")
				}))
			}
			registry.RegisterDistribution("steady", registry.DistributionMakerFunc(func(context.Context, interface{}) (dist.Params, error) {
				return nil, errors.New(doc)
			}))
			registry.NewDistribution(ctx, "steady", nil)
			registry.NewDistribution(ctx, "none"+fmt.Sprint(i), nil)
		})
	})
	run("merges", 400, func(c *hk.C, n int) {
		recs := []data.Record{record(c, 0, 10), record(c, 10, 20)}
		d, err := tdigest.Params{Compression: 5}.New()
		if err != nil {
			return
		}
		d2, _ := tdigest.Params{Compression: 5}.New()
		for i := 0; i < 100; i++ {
			d2.Observe(float64(i))
		}
		steady(c, n, func(i int) {
			for j := 0; j < 20; j++ {
				d2.CDF(float64(i*20+j) / float64(3*n))
				d2.Query(float64(i*20+j) / float64(60*n))
			}
			merge.Merge(ctx, merge.MergeOptions{Params: tdigest.Params{Compression: 5}, Records: recs})
			d.Query(float64(i) / float64(3*n))
			d.CDF(float64(i))
			if i%5 == 0 {
				d.Observe(float64(i * 7919 % 1009))
			}
		})
	})

	r.Require("operations", 100000)
}

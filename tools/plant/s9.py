D='dump/dump.go'; A='api/common.go'; L='listener/graphite/listener.go'; S='api/server.go'; R='database/files/db_read.go'
REC='''
import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/dump"
	"github.com/vivint/rothko/external"
)

type recorder struct {
	mu     sync.Mutex
	errors []string
	values map[string]float64
}

func (r *recorder) Infow(msg string, kv ...interface{}) {}
func (r *recorder) Errorw(msg string, kv ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.errors = append(r.errors, fmt.Sprint(msg, kv))
}
func (r *recorder) Observe(name string, value float64) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.values[name] += value
}

type fakeDB struct {
	database.DB
	queue func(metric string, cb func(bool, error)) error
}

func (f fakeDB) Queue(ctx context.Context, metric string, start, end int64, data []byte, cb func(bool, error)) error {
	return f.queue(metric, cb)
}
'''
SEEDS=[
dict(id='c32-written-errors', property='C32', needs='a database that stores a value and then fails, so that it answers with both',
 breaks='errors of values that were written are neither logged nor counted',
 edits=[(D,"			if !written || err != nil {\n				external.Errorw","			if !written {\n				external.Errorw"),
  (D,"			} else {\n				atomic.AddInt64(&skips, 1)\n			}\n			if err != nil {\n				atomic.AddInt64(&errors, 1)\n			}\n",
   "			} else {\n				atomic.AddInt64(&skips, 1)\n				if err != nil {\n					atomic.AddInt64(&errors, 1)\n				}\n			}\n")],
 pkg='dump', demo='package dump_test\n'+REC+'''
func TestDemo(t *testing.T) {
	rec := &recorder{values: map[string]float64{}}
	external.Default = external.Resources{Logger: rec, Monitor: rec}
	w := data.NewWriter(tdigest.Params{Compression: 5})
	w.Add(context.Background(), "some.metric", 1, nil)
	d := dump.New(dump.Options{Period: time.Hour, DB: fakeDB{queue: func(metric string, cb func(bool, error)) error {
		cb(true, errors.New("the disk is full"))
		return nil
	}}})
	d.Dump(context.Background(), w)
	if rec.values["metric_errors"] != 1 || rec.values["metric_writes"] != 1 || rec.values["metric_skips"] != 0 {
		t.Fatal(rec.values)
	}
	if len(rec.errors) != 1 || !strings.Contains(rec.errors[0], "some.metric") || !strings.Contains(rec.errors[0], "the disk is full") {
		t.Fatal(rec.errors)
	}
}
'''),
dict(id='c32-late-count', property='C32', needs='answers of the database that come after all values were queued',
 breaks='the answers are counted after the dump was told that the last of them came, so that some are missing in what it reports',
 edits=[(D,"			if written {\n				atomic.AddInt64(&writes, 1)","			d.bufs.Put(data)\n			wg.Done()\n\n			if written {\n				atomic.AddInt64(&writes, 1)"),
  (D,"				atomic.AddInt64(&errors, 1)\n			}\n\n			d.bufs.Put(data)\n			wg.Done()\n		}","				atomic.AddInt64(&errors, 1)\n			}\n		}")],
 pkg='dump', flags='-race ', demo='package dump_test\n'+REC+'''
func TestDemo(t *testing.T) {
	rec := &recorder{values: map[string]float64{}}
	external.Default = external.Resources{Logger: rec, Monitor: rec}
	_, _ = errors.New, strings.Contains
	const dumps, metrics = 300, 20
	for i := 0; i < dumps; i++ {
		w := data.NewWriter(tdigest.Params{Compression: 5})
		for j := 0; j < metrics; j++ {
			w.Add(context.Background(), fmt.Sprint("m", j), 1, nil)
		}
		d := dump.New(dump.Options{Period: time.Hour, DB: fakeDB{queue: func(metric string, cb func(bool, error)) error {
			go func() {
				time.Sleep(10 * time.Microsecond)
				cb(true, nil)
			}()
			return nil
		}}})
		d.Dump(context.Background(), w)
	}
	if rec.values["metric_writes"] != dumps*metrics {
		t.Fatal(rec.values)
	}
}
'''),
dict(id='c32-header-twice', property='C32', needs='an answer with a status of its own that is followed by a body',
 breaks='a status that was set without a body yet is forgotten by the first byte of the body, so that failures are logged as successes',
 edits=[(A,"	if !r.wrote {\n		r.code = code\n	}\n	r.wrote = true\n	r.ResponseWriter.WriteHeader(code)","	if !r.wrote {\n		r.code = code\n	}\n	r.ResponseWriter.WriteHeader(code)")],
 pkg='api', demo='''package api_test

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/vivint/rothko/api"
	"github.com/vivint/rothko/external"
)

type recorder struct{ lines []string }

func (r *recorder) Infow(msg string, kv ...interface{}) {
	for i := 0; i+1 < len(kv); i += 2 {
		if kv[i] == "status" {
			r.lines = append(r.lines, fmt.Sprint(kv[i+1]))
		}
	}
}
func (r *recorder) Errorw(msg string, kv ...interface{}) {}

func TestDemo(t *testing.T) {
	rec := &recorder{}
	external.Default = external.Resources{Logger: rec}
	srv := api.New(nil, http.NotFoundHandler(), api.Options{})
	w := httptest.NewRecorder()
	srv.ServeHTTP(w, httptest.NewRequest("GET", "/missing", nil))
	if w.Code != 404 || len(rec.lines) != 1 || rec.lines[0] != "404" {
		t.Fatal(w.Code, rec.lines)
	}
}
'''),
dict(id='c24-result-cap', property='C24', needs='more than ten thousand matching metrics, and a request for all of them',
 breaks='the number of results is silently limited to 10000',
 edits=[(S,'	results := getInt(req.FormValue("results"), 10)\n\n	search := query.New(_query, results)\n','	limit := getInt(req.FormValue("results"), 10)\n	if limit > 10000 {\n		limit = 10000\n	}\n\n	search := query.New(_query, limit)\n')],
 pkg='api', demo='''package api_test

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http/httptest"
	"testing"

	"github.com/vivint/rothko/api"
	"github.com/vivint/rothko/database"
)

type manyDB struct{ database.DB }

func (manyDB) PopulateMetrics(ctx context.Context) error { return nil }
func (manyDB) Metrics(ctx context.Context, cb func(string) (bool, error)) error {
	for i := 0; i < 12000; i++ {
		if ok, err := cb(fmt.Sprintf("metric.%d", i)); !ok || err != nil {
			return err
		}
	}
	return nil
}

func TestDemo(t *testing.T) {
	srv := api.New(manyDB{}, nil, api.Options{})
	w := httptest.NewRecorder()
	srv.ServeHTTP(w, httptest.NewRequest("GET", "/api/query?query=metric&results=20000", nil))
	var out []interface{}
	if err := json.Unmarshal(w.Body.Bytes(), &out); err != nil {
		t.Fatal(w.Code, err)
	}
	if len(out) != 12000 {
		t.Fatalf("%d of 12000 metrics", len(out))
	}
}
'''),
dict(id='c30-large-file', property='C30', needs='a file of more than 8 MB in the archive',
 breaks='files are cut after 8 MB',
 edits=[('internal/tgzfs/fs.go','		data, err := ioutil.ReadAll(tardata)','		data, err := ioutil.ReadAll(io.LimitReader(tardata, 8<<20))')],
 pkg='internal/tgzfs', demo='''package tgzfs_test

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"io/ioutil"
	"testing"

	"github.com/vivint/rothko/internal/tgzfs"
)

func TestDemo(t *testing.T) {
	want := bytes.Repeat([]byte("0123456789abcdef"), 9<<16)
	var buf bytes.Buffer
	gz := gzip.NewWriter(&buf)
	w := tar.NewWriter(gz)
	w.WriteHeader(&tar.Header{Name: "big.bin", Mode: 0644, Size: int64(len(want))})
	w.Write(want)
	w.Close()
	gz.Close()
	fs, err := tgzfs.New(buf.Bytes())
	if err != nil {
		t.Fatal(err)
	}
	f, err := fs.Open("/big.bin")
	if err != nil {
		t.Fatal(err)
	}
	got, err := ioutil.ReadAll(f)
	if err != nil || !bytes.Equal(got, want) {
		t.Fatal(len(got), len(want), err)
	}
}
'''),
dict(id='c28-first-registration', property='C28', needs='the first two registrations of a registry at the same time',
 breaks='the table is made before the lock is taken, so that the one made second replaces the first with what was registered in it',
 edits=[('registry/registry.go',"	r.mu.Lock()\n	if r.distributions == nil {\n		r.distributions = make(map[string]DistributionMaker)\n	}\n	r.distributions[name] = maker","	if r.distributions == nil {\n		r.distributions = make(map[string]DistributionMaker)\n	}\n	r.mu.Lock()\n	r.distributions[name] = maker")],
 pkg='registry', flags='-race ', demo='''package registry_test

import (
	"context"
	"fmt"
	"sync"
	"testing"

	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/registry"
)

func TestDemo(t *testing.T) {
	maker := registry.DistributionMakerFunc(func(context.Context, interface{}) (dist.Params, error) { return nil, nil })
	for i := 0; i < 200; i++ {
		var r registry.Registry
		var wg sync.WaitGroup
		for j := 0; j < 8; j++ {
			name := fmt.Sprint(j)
			wg.Add(1)
			go func() {
				defer wg.Done()
				r.RegisterDistribution(name, maker)
			}()
		}
		wg.Wait()
		for j := 0; j < 8; j++ {
			if _, err := r.NewDistribution(context.Background(), fmt.Sprint(j), nil); err != nil {
				t.Fatal(err)
			}
		}
	}
}
'''),
dict(id='c27-env-secret', property='C27', needs='a password with a dollar sign in it',
 breaks='names and passwords are expanded as shell variables',
 edits=[('config/load.go','			Security: APISecurityConfig(tomlConfig.API.Security),\n','			Security: APISecurityConfig{\n				Username: os.ExpandEnv(tomlConfig.API.Security.Username),\n				Password: os.ExpandEnv(tomlConfig.API.Security.Password),\n			},\n'),
  ('config/load.go','import (\n','import (\n	"os"\n')],
 pkg='config', demo='''package config_test

import (
	"testing"

	"github.com/vivint/rothko/config"
)

func TestDemo(t *testing.T) {
	c, err := config.Load([]byte(`[main]
duration = "1m"
[database.files]
[dist.tdigest]
[api.security]
username = "user"
password = "pa$HOME/word"
`))
	if err != nil {
		t.Fatal(err)
	}
	if got := c.API.Security.Password; got != "pa$HOME/word" {
		t.Fatal(got)
	}
}
'''),
]

import sys; sys.path.insert(0,'/tmp/plant')
from s1 import DBH
from s4 import OPEN
SEEDS=[
dict(id='c02-cut-silently', property='C02', needs='a context that ends while a query delivers values of one record each',
 breaks='the query stops in the middle and returns no error, as if those were all the values',
 edits=[('database/files/metric.go',"						return false, ctx.Err()\n					default:\n					}\n					continue new_record\n				}\n\n				// if it's","						return false, nil\n					default:\n					}\n					continue new_record\n				}\n\n				// if it's")], pkg='database/files', demo=DBH+"""
func TestDemo(t *testing.T) {
"""+OPEN%(8,4)+"""	for i := int64(1); i <= 5; i++ {
		if ok, err := put(t, db, "m", i*10-5, i*10, []byte{1}); !ok || err != nil {
			t.Fatal(ok, err)
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	n := 0
	err := db.Query(ctx, "m", 1000, nil, func(context.Context, int64, int64, []byte) (bool, error) {
		n++
		cancel()
		return true, nil
	})
	if n < 5 && err == nil {
		t.Fatal(n, err)
	}
}
"""),
dict(id='c10-colon', property='C10', needs='a metric name with a colon and one with a slash in its place',
 breaks='both are stored in the same directory, and the one with the colon is listed under the other name',
 edits=[('database/files/convert.go',"			case '/':\n				buf = append(buf, \"%2f\"...)","			case '/', ':':\n				// neither can be in the name of a file everywhere\n				buf = append(buf, \"%2f\"...)")], pkg='database/files', demo=DBH+"""
func TestDemo(t *testing.T) {
"""+OPEN%(8,4)+"""	if ok, err := put(t, db, "a:b", 5, 10, []byte("colon")); !ok || err != nil {
		t.Fatal(ok, err)
	}
	if ok, err := put(t, db, "a/b", 1, 2, []byte("slash")); !ok || err != nil {
		t.Fatal(ok, err)
	}
	got, err := all(t, db, "a:b", 1000)
	if err != nil || len(got) != 1 || got[0].data != "colon" {
		t.Fatal(got, err)
	}
}
"""),
dict(id='c11-head-leak', property='C11', needs='the metadata of a data file breaking while the file is in the cache of handles',
 breaks='every write that fails to read the metadata leaves the file mapped for good',
 edits=[('database/files/metric.go',"		head, err := getHeadPointer(ctx, f)\n		if err != nil {\n			m.opts.fch.releaseFile(path, f)\n			return file{}, 0, err\n		}","		head, err := getHeadPointer(ctx, f)\n		if err != nil {\n			return file{}, 0, err\n		}")], pkg='database/files', demo=DBH+"""
func maps(d string) int {
	b, _ := ioutil.ReadFile("/proc/self/maps")
	return strings.Count(string(b), d+"/")
}

func TestDemo(t *testing.T) {
	d := dir(t)
	db := files.New(d, files.Options{Size: 128, Cap: 4, Files: 2, Tuning: files.Tuning{Buffer: 4, Workers: 1, Handles: 8}})
	stop := run(t, db)
	if ok, err := put(t, db, "m", 5, 10, []byte{1}); !ok || err != nil {
		t.Fatal(ok, err)
	}
	fis, err := ioutil.ReadDir(d + "/m")
	if err != nil || len(fis) != 1 {
		t.Fatal(fis, err)
	}
	fh, err := os.OpenFile(d+"/m/"+fis[0].Name(), os.O_RDWR, 0)
	if err != nil {
		t.Fatal(err)
	}
	fh.WriteAt([]byte{0xff, 0xff}, 0)
	fh.Close()
	put(t, db, "m", 15, 20, []byte{1})
	stop()
	if n := maps(d); n != 0 {
		t.Fatal(n, "mappings are left")
	}
}
"""),
dict(id='c17-slots', property='C17', needs='more than 64 connections that are open at once',
 breaks='further ones are not served until others are closed',
 edits=[('listener/graphite/listener.go',"	for {\n		conn, err := lis.Accept()","	slots := make(chan struct{}, 64)\n	for {\n		slots <- struct{}{}\n		conn, err := lis.Accept()"),('listener/graphite/listener.go',"			defer wg.Done()\n\n			err := handleConn(ctx, w, conn)","			defer func() {\n				<-slots\n				wg.Done()\n			}()\n\n			err := handleConn(ctx, w, conn)")],
 pkg='listener/graphite', demo='''package graphite_test

import (
	"context"
	"fmt"
	"net"
	"testing"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/listener/graphite"
)

func TestDemo(t *testing.T) {
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	addr := lis.Addr().String()
	lis.Close()
	w := data.NewWriter(tdigest.Params{Compression: 5})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	go graphite.New(addr).Run(ctx, w)
	const n = 100
	for i := 0; i < n; i++ {
		var conn net.Conn
		for try := 0; ; try++ {
			if conn, err = net.Dial("tcp", addr); err == nil {
				break
			}
			if try > 500 {
				t.Fatal(err)
			}
			time.Sleep(10 * time.Millisecond)
		}
		defer conn.Close()
		fmt.Fprintf(conn, "m %d 1\\n", i)
	}
	got := int64(0)
	for try := 0; try < 500 && got < n; try++ {
		time.Sleep(10 * time.Millisecond)
		got = 0
		w.Iterate(ctx, func(ctx context.Context, metric string, rec data.Record) bool {
			got += rec.Observations
			return true
		})
	}
	if got != n {
		t.Fatalf("%d of %d", got, n)
	}
}
'''),
dict(id='c25-remarshal', property='C25', needs='a stored record with fields that are not known, from a later version say',
 breaks='the newest record is not answered as it is stored, but without those fields',
 edits=[('api/server.go','				earliest = append(earliest[:0], buf...)','				earliest, err = rec.Marshal()\n				if err != nil {\n					return false, errs.Wrap(err)\n				}')],
 pkg='api', demo='''package api_test

import (
	"bytes"
	"context"
	"encoding/json"
	"net/http/httptest"
	"testing"

	"github.com/vivint/rothko/api"
	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/dist/tdigest"
)

type one struct {
	database.DB
	end int64
	rec []byte
}

func (o one) Query(ctx context.Context, metric string, end int64, buf []byte, cb database.ResultCallback) error {
	_, err := cb(ctx, o.end-10, o.end, append(buf[:0], o.rec...))
	return err
}

func TestDemo(t *testing.T) {
	d, err := tdigest.Params{Compression: 5}.New()
	if err != nil {
		t.Fatal(err)
	}
	d.Observe(1)
	const end = 1500000000000000000
	r := data.Record{StartTime: end - 10, EndTime: end, Observations: 1, Distribution: d.Marshal(nil), Kind: d.Kind(), Merged: 1}
	buf, err := r.Marshal()
	if err != nil {
		t.Fatal(err)
	}
	buf = append(buf, 0xfa, 0x01, 0x03, 'x', 'y', 'z')
	req := httptest.NewRequest("GET", "/api/render?metric=m&now=1500000000000000001&duration=1h", nil)
	req.Header.Set("Accept", "application/json")
	rec := httptest.NewRecorder()
	api.New(one{nil, end, buf}, nil, api.Options{}).ServeHTTP(rec, req)
	var got struct{ Earliest []byte }
	if err := json.Unmarshal(rec.Body.Bytes(), &got); err != nil || !bytes.Equal(got.Earliest, buf) {
		t.Fatalf("%v %x %.300q", err, got.Earliest, rec.Body.String())
	}
}
'''),
]

import sys; sys.path.insert(0,'/tmp/plant')
from s1 import DBH
EXE='''package rothko_test

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database/files"
)

var _ = bufio.NewReader
var _ = json.Marshal
var _ = http.Get
var _ = net.Listen
var _ = strings.Count
var _ = syscall.SIGINT
var _ data.Record
var _ context.Context
var _ files.Options

func exe(t *testing.T) (dir, bin string) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.RemoveAll(dir) })
	bin = filepath.Join(dir, "rothko")
	if out, err := exec.Command("go", "build", "-o", bin, "./bin/rothko").CombinedOutput(); err != nil {
		t.Fatalf("%v: %s", err, out)
	}
	return dir, bin
}

func port(t *testing.T) string {
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer lis.Close()
	return lis.Addr().String()
}

func dial(t *testing.T, addr string) net.Conn {
	for i := 0; i < 1000; i++ {
		if conn, err := net.Dial("tcp", addr); err == nil {
			return conn
		}
		time.Sleep(10 * time.Millisecond)
	}
	t.Fatal("no connection")
	return nil
}
'''
SEEDS=[
dict(id='c02-stop-large', property='C02', needs='a consumer that stops at a value of several records while there is an older data file',
 breaks='the query goes on with the older data file',
 edits=[('database/files/metric.go','''					// ok we're done with that value, callback and move on to
					// the next value.
					ok, err = cb(ctx, rec.start, rec.end, buf)
					if err != nil {
						return false, err
					}
					if !ok {
						return false, nil
					}
''','''					// ok we're done with that value, callback and move on to
					// the next value.
					ok, err = cb(ctx, rec.start, rec.end, buf)
					if err != nil || !ok {
						return true, err
					}
''')],
 pkg='database/files', demo=DBH+'''
func TestDemo(t *testing.T) {
	db := files.New(dir(t), files.Options{Size: 100, Cap: 3, Files: 5, Tuning: files.Tuning{Workers: 1}})
	defer run(t, db)()
	for i := int64(0); i < 4; i++ {
		if ok, err := put(t, db, "m", i, i+1, make([]byte, 150)); !ok {
			t.Fatal(err)
		}
	}
	n := 0
	err := db.Query(context.Background(), "m", 100, nil, func(ctx context.Context, start, end int64, data []byte) (bool, error) {
		n++
		return false, nil
	})
	if err != nil || n != 1 {
		t.Fatal(n, err)
	}
	start, end, _, err := db.QueryLatest(context.Background(), "m", nil)
	if err != nil || start != 3 || end != 4 {
		t.Fatal(start, end, err)
	}
}
'''),
dict(id='c04-page-round', property='C04', needs='a record size and capacity that do not fill whole pages',
 breaks='data files are made as large as whole pages, and hold more records than configured',
 edits=[('database/files/file.go','	len := size * (cap + 1)\n	if err := system.Allocate','	len := size * (cap + 1)\n	if page := os.Getpagesize(); len%page != 0 {\n		len += page - len%page // a part of a page takes as much as all of it\n	}\n	if err := system.Allocate')],
 pkg='database/files', demo=DBH+'''
func TestDemo(t *testing.T) {
	d := dir(t)
	db := files.New(d, files.Options{Size: 100, Cap: 3, Files: 2, Tuning: files.Tuning{Workers: 1}})
	defer run(t, db)()
	for i := int64(0); i < 40; i++ {
		if ok, err := put(t, db, "m", i, i+1, make([]byte, 50)); !ok {
			t.Fatal(err)
		}
	}
	infos, err := ioutil.ReadDir(d + "/m")
	if err != nil || len(infos) == 0 || len(infos) > 3 {
		t.Fatal(len(infos), err)
	}
	for _, info := range infos {
		if info.Size() > 400 {
			t.Fatal(info.Size())
		}
	}
}
'''),
dict(id='c03-one-record', property='C03', needs='a value that goes back in time when the newest data file holds exactly one',
 breaks='it is accepted',
 edits=[('database/files/metric.go','	if f.HasRecord(ctx, head) {\n','	if head+1 < f.Capacity() && f.HasRecord(ctx, head) {\n')],
 pkg='database/files', demo=DBH+'''
func TestDemo(t *testing.T) {
	db := files.New(dir(t), files.Options{Size: 100, Cap: 3, Files: 2, Tuning: files.Tuning{Workers: 1}})
	defer run(t, db)()
	for i := int64(1); i <= 4; i++ {
		if ok, err := put(t, db, "m", 10*i, 10*i+10, []byte("x")); !ok {
			t.Fatal(err)
		}
	}
	if ok, err := put(t, db, "m", 10, 20, []byte("back")); ok || err != nil {
		t.Fatal(ok, err)
	}
	if got, err := all(t, db, "m", 1000); err != nil || len(got) != 4 || got[0].end != 50 {
		t.Fatal(got, err)
	}
}
'''),
dict(id='c18-no-last-dump', property='C18', needs='an interrupt between two periodic dumps',
 breaks='the last dump runs under the context that the interrupt ended, and stores nothing',
 edits=[('run.go','''		sigint_ctx, cancel := junk.WithSignal(ctx, syscall.SIGINT)
		defer cancel()

		if err := launcher.Run(sigint_ctx); err != nil {''','''		ctx, cancel := junk.WithSignal(ctx, syscall.SIGINT)
		defer cancel()

		if err := launcher.Run(ctx); err != nil {''')],
 pkg='.', demo=EXE+'''
func TestDemo(t *testing.T) {
	dir, bin := exe(t)
	gr, ap := port(t), port(t)
	conf := filepath.Join(dir, "conf.toml")
	ioutil.WriteFile(conf, []byte(fmt.Sprintf(`
[main]
duration = "1h"
[[listeners.graphite]]
address = %q
[database.files]
directory = %q
size = 256
cap = 10
files = 2
[dist.tdigest]
compression = 5.0
[api]
address = %q
`, gr, filepath.Join(dir, "data"), ap)), 0644)
	cmd := exec.Command(bin, "run", conf)
	if err := cmd.Start(); err != nil {
		t.Fatal(err)
	}
	defer cmd.Process.Kill()
	conn := dial(t, gr)
	fmt.Fprintf(conn, "m 1 1\\nm 2 1\\nm 3 1\\n")
	conn.Close()
	dial(t, ap).Close()
	time.Sleep(time.Second)
	cmd.Process.Signal(syscall.SIGINT)
	if err := cmd.Wait(); err != nil {
		t.Fatal(err)
	}
	db := files.New(filepath.Join(dir, "data"), files.Options{Size: 256, Cap: 10, Files: 2})
	_, _, buf, err := db.QueryLatest(context.Background(), "m", nil)
	var rec data.Record
	if err == nil {
		err = rec.Unmarshal(buf)
	}
	if err != nil || rec.Observations != 3 {
		t.Fatal(rec, err)
	}
}
'''),
dict(id='c31-demo-short', property='C31', needs='the end of the records that the demo leaves to be looked at',
 breaks='the last of the records is not made, so that they do not reach up to now',
 edits=[('demo.go','			for t0.Before(now) {','			for t1.Before(now) {')],
 pkg='.', demo=EXE+'''
func TestDemo(t *testing.T) {
	dir, bin := exe(t)
	conf := filepath.Join(dir, "conf.toml")
	ioutil.WriteFile(conf, []byte(fmt.Sprintf(`
[main]
duration = "1h"
[database.files]
directory = %q
size = 256
cap = 1000
files = 2
[dist.tdigest]
compression = 5.0
[api]
address = ":0"
`, filepath.Join(dir, "data"))), 0644)
	before := time.Now().UnixNano()
	if out, err := exec.Command(bin, "demo", conf).CombinedOutput(); err != nil {
		t.Fatal(err, string(out))
	}
	db := files.New(filepath.Join(dir, "data"), files.Options{Size: 256, Cap: 1000, Files: 2})
	_, end, _, err := db.QueryLatest(context.Background(), "exp.stable", nil)
	if err != nil || end < before {
		t.Fatal(end, before, err)
	}
}
'''),
dict(id='c09-rescan-race', property='C09', needs='a value written while the directory walk runs, for a name it has passed',
 breaks='the walk replaces the names by the ones it saw',
 edits=[('database/files/db_read.go','''			if !before.Has(name) {
				dp.out.Add(name)
			}
			return true''','''			return true''')],
 pkg='database/files', demo=DBH),
dict(id='c05-drop-blocks', property='C05', needs='a full buffer with dropping enabled and a context that never ends',
 breaks='the value waits for room instead of being dropped',
 edits=[],pkg='database/files',demo=DBH),
]
SEEDS=[s for s in SEEDS if s['id'] not in ('c09-rescan-race','c05-drop-blocks')]

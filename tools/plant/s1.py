DBH = '''package files_test

import (
	"bytes"
	"context"
	"fmt"
	"io/ioutil"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/vivint/rothko/database/files"
)

var _ = fmt.Sprint
var _ = bytes.Equal
var _ = strings.Count
var _ sync.Mutex
var _ = time.Now

func dir(t *testing.T) string {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.RemoveAll(d) })
	return d
}

// run starts the database and returns how to stop it.
func run(t *testing.T, db *files.DB) func() {
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan error, 1)
	go func() { done <- db.Run(ctx) }()
	return func() { cancel(); <-done }
}

func put(t *testing.T, db *files.DB, name string, start, end int64, data []byte) (bool, error) {
	type res struct {
		ok  bool
		err error
	}
	ch := make(chan res, 1)
	db.Queue(context.Background(), name, start, end, data, func(ok bool, err error) { ch <- res{ok, err} })
	select {
	case r := <-ch:
		return r.ok, r.err
	case <-time.After(20 * time.Second):
		t.Fatal("no answer")
		return false, nil
	}
}

type val struct {
	start, end int64
	data       string
}

func all(t *testing.T, db *files.DB, name string, bound int64) (out []val, err error) {
	err = db.Query(context.Background(), name, bound, nil, func(ctx context.Context, start, end int64, data []byte) (bool, error) {
		out = append(out, val{start, end, string(data)})
		return true, nil
	})
	return out, err
}

func metrics(t *testing.T, db *files.DB) (out []string) {
	db.Metrics(context.Background(), func(name string) (bool, error) { out = append(out, name); return true, nil })
	return out
}
'''
SEEDS = [
dict(id='c01-exact-fit', property='C01',
 needs='a value whose length is an exact multiple of what one record holds, written after another value',
 breaks='the value takes one record more than was made room for, which overwrites the newest stored value',
 edits=[('database/files/record.go','	complete := len(data) <= chunk','	complete := len(data) < chunk'),
        ('database/files/record.go','	for len(data) > chunk {','	for len(data) >= chunk {')],
 pkg='database/files', demo=DBH+'''
func TestDemo(t *testing.T) {
	db := files.New(dir(t), files.Options{Size: 128, Cap: 16, Files: 4, Tuning: files.Tuning{Buffer: 4, Workers: 1, Handles: 8}})
	defer run(t, db)()
	for i, n := range []int{10, 208, 10} {
		if ok, err := put(t, db, "m", int64(i*10), int64(i*10+5), bytes.Repeat([]byte{byte('a' + i)}, n)); !ok || err != nil {
			t.Fatal(ok, err)
		}
	}
	got, err := all(t, db, "m", 1000)
	if err != nil || len(got) != 3 {
		t.Fatal(len(got), err)
	}
}
'''),
dict(id='c01-latest-alias', property='C01',
 needs='a latest-value query whose data file is evicted from the handle cache before the caller looks at the data',
 breaks='the returned data is the mapped file instead of a copy, so it changes or crashes the process once the file is unmapped',
 edits=[('database/files/metric.go',"""				// TODO(jeff): we could be opening these files as read only,
				// but that would complicate the caching semantics. maybe
				// it's worth it to avoid this copy though.
				buf = append(buf[:0], rec.data...)

				// if we have a complete record, bump the head pointer and
				// move to the next record.
				if rec.kind == recordKind_complete {
					ok, err := cb(ctx, rec.start, rec.end, buf)
""","""				// if we have a complete record, bump the head pointer and
				// move to the next record. there is no need to copy it.
				if rec.kind == recordKind_complete {
					ok, err := cb(ctx, rec.start, rec.end, rec.data)
"""),('database/files/metric.go',"""						"kind", rec.kind,
						"expected", recordKind_end,
					)
					continue new_record
				}

				// read records and append them""","""						"kind", rec.kind,
						"expected", recordKind_end,
					)
					continue new_record
				}
				buf = append(buf[:0], rec.data...)

				// read records and append them""")],
 pkg='database/files', demo=DBH+"""
func TestDemo(t *testing.T) {
	db := files.New(dir(t), files.Options{Size: 128, Cap: 4, Files: 2, Tuning: files.Tuning{Buffer: 4, Workers: 1, Handles: 1}})
	defer run(t, db)()
	for i, name := range []string{"a", "b", "c"} {
		if ok, err := put(t, db, name, 1, 2, []byte{'0', byte('0' + i)}); !ok || err != nil {
			t.Fatal(ok, err)
		}
	}
	_, _, data, err := db.QueryLatest(context.Background(), "a", nil)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 10; i++ {
		all(t, db, "b", 100)
		all(t, db, "c", 100)
	}
	if string(data) != "00" {
		t.Fatal(data)
	}
}
"""),
dict(id='c08-skip-middle', property='C08',
 needs='damage to a record in the middle of a value that takes three or more records',
 breaks='the damaged part is left out and the rest of the value is returned as if it were all of it',
 edits=[('database/files/metric.go',"""					rec, err := f.Record(ctx, head)
					head++
					if err != nil {
						// drop any records we have with errors
						external.Errorw("error reading record",
							"err", err,
						)
						continue new_record
					}

					buf = append""","""					rec, err := f.Record(ctx, head)
					head++
					if err != nil {
						// drop any records we have with errors
						external.Errorw("error reading record",
							"err", err,
						)
						if head == capacity {
							continue new_record
						}
						continue
					}

					buf = append""")],
 pkg='database/files', demo=DBH+"""
func TestDemo(t *testing.T) {
	d := dir(t)
	opts := files.Options{Size: 128, Cap: 10, Files: 2, Tuning: files.Tuning{Buffer: 4, Workers: 1, Handles: 4}}
	db := files.New(d, opts)
	stop := run(t, db)
	put(t, db, "m", 1, 2, bytes.Repeat([]byte("x"), 400))
	stop()
	path := d + "/m/1.data"
	buf, err := ioutil.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	for off := 128; off < len(buf); off += 128 {
		if buf[off] == 0 {
			continue
		}
		cp := append([]byte(nil), buf...)
		cp[off+50] ^= 1
		ioutil.WriteFile(path, cp, 0644)
		got, _ := all(t, files.New(d, opts), "m", 100)
		for _, v := range got {
			if len(v.data) != 400 {
				t.Fatal(len(v.data))
			}
		}
	}
}
"""),
dict(id='c05-large-buffer', property='C05',
 needs='a value larger than the pooled buffer whose caller reuses its slice before a worker wrote it',
 breaks='the queue keeps the slice of the caller, so other bytes are stored than were passed',
 edits=[('database/files/db_write.go','	buf = append(buf[:0], data...)','''	if len(data) > cap(buf) {
		buf = data // no use in growing buffers of the pool
	} else {
		buf = append(buf[:0], data...)
	}''')],
 pkg='database/files', demo=DBH+'''
func TestDemo(t *testing.T) {
	db := files.New(dir(t), files.Options{Size: 128, Cap: 20, Files: 4, Tuning: files.Tuning{Buffer: 4, Workers: 1, Handles: 8}})
	data := bytes.Repeat([]byte("a"), 300)
	ch := make(chan bool, 1)
	db.Queue(context.Background(), "m", 1, 2, data, func(ok bool, err error) { ch <- ok })
	for i := range data {
		data[i] = 'z'
	}
	defer run(t, db)()
	if !<-ch {
		t.Fatal("not written")
	}
	got, err := all(t, db, "m", 1000)
	if err != nil || len(got) != 1 || got[0].data != strings.Repeat("a", 300) {
		t.Fatal(got, err)
	}
}
'''),
dict(id='c06-query-lock', property='C06',
 needs='a query that overlaps a write of the same metric which rotates, evicts or opens its data files',
 breaks='reads use data files that are unmapped or replaced under them, so they fail, crash or see torn values',
 edits=[('database/files/db_read.go','''	db.locks.Lock(metric)
	defer db.locks.Unlock(metric)

	// acquire the datastructure encapsulating metric read logic
	met, err := db.newMetric(ctx, metric, true)
	if err != nil {
		return err
	}
''','''	// the lock is only needed while the range of files is determined
	db.locks.Lock(metric)
	met, err := db.newMetric(ctx, metric, true)
	db.locks.Unlock(metric)
	if err != nil {
		return err
	}
''')],
 pkg='database/files', demo=DBH+'''
func TestDemo(t *testing.T) {
	db := files.New(dir(t), files.Options{Size: 128, Cap: 2, Files: 1, Tuning: files.Tuning{Buffer: 4, Workers: 1, Handles: 2}})
	defer run(t, db)()
	if ok, err := put(t, db, "m", 1, 2, []byte("x")); !ok || err != nil {
		t.Fatal(ok, err)
	}
	var wg sync.WaitGroup
	stop := make(chan struct{})
	errs := make(chan error, 8)
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				got, err := all(t, db, "m", 1<<62)
				if err == nil && len(got) == 0 {
					err = fmt.Errorf("nothing")
				}
				if err != nil {
					errs <- err
					return
				}
			}
		}()
	}
	for i := int64(2); i < 3000; i++ {
		put(t, db, "m", i, i+1, []byte("y"))
	}
	close(stop)
	wg.Wait()
	select {
	case err := <-errs:
		t.Fatal(err)
	default:
	}
}
'''),
dict(id='c11-refused-leak', property='C11',
 needs='writes that are refused because of their end time',
 breaks='every refused write keeps its data file mapped for ever',
 edits=[('database/files/metric.go','''	defer m.opts.fch.releaseFile(m.filenameAt(m.last), f)

	// point head''','''
	// point head'''),
 ('database/files/metric.go','''	// ensure we have capacity to write the value in the last file and create
	// a new file if necessary.
''','''	// ensure we have capacity to write the value in the last file and create
	// a new file if necessary.
	defer m.opts.fch.releaseFile(m.filenameAt(m.last), f)
''')],
 pkg='database/files', demo=DBH+'''
func TestDemo(t *testing.T) {
	d := dir(t)
	db := files.New(d, files.Options{Size: 128, Cap: 4, Files: 2, Tuning: files.Tuning{Buffer: 4, Workers: 1, Handles: 4}})
	stop := run(t, db)
	for i := 0; i < 50; i++ {
		put(t, db, "m", 1, 2, []byte("x"))
	}
	stop()
	maps, err := ioutil.ReadFile("/proc/self/maps")
	if err != nil {
		t.Fatal(err)
	}
	if n := strings.Count(string(maps), d); n != 0 {
		t.Fatal(n)
	}
}
'''),
dict(id='c09-merge-sets', property='C09',
 needs='a new metric that sorts after all of the listed ones and is written by two workers before the next listing',
 breaks='the name gets into the order but not into the set, so the set of the second worker adds it again and it is listed twice',
 edits=[('database/files/internal/sset/set.go','''	for _, key := range o.order {
		s.Add(key)
	}
''','''	keys := o.order

	// in the common case of increasing names there is nothing to search
	if n := len(s.order); n > 0 && len(keys) > 0 && keys[0] > s.order[n-1] {
		s.order = append(s.order, keys...)
		return
	}

	for i := range keys {
		s.Add(keys[i])
	}
''')],
 pkg='database/files', demo=DBH+'''
func TestDemo(t *testing.T) {
	db := files.New(dir(t), files.Options{Size: 128, Cap: 4, Files: 2, Tuning: files.Tuning{Buffer: 4, Workers: 4, Handles: 4}})
	defer run(t, db)()
	put(t, db, "a", 0, 1, []byte("x"))
	time.Sleep(50 * time.Millisecond)
	metrics(t, db)
	for i := int64(0); i < 100; i++ {
		put(t, db, "d", i, i+1, []byte("x"))
	}
	if got := metrics(t, db); strings.Join(got, " ") != "a d" {
		t.Fatal(got)
	}
}
'''),
dict(id='c10-data-suffix', property='C10',
 needs='a metric name with a component that ends in "data", and a restart',
 breaks='the directory of the component is taken for a data file, so metrics below it are not listed after a restart',
 edits=[('database/files/db_read.go','bytes.HasSuffix(name, []byte(".data"))','bytes.HasSuffix(name, []byte("data"))')],
 pkg='database/files', demo=DBH+'''
func TestDemo(t *testing.T) {
	d := dir(t)
	opts := files.Options{Size: 128, Cap: 4, Files: 2, Tuning: files.Tuning{Buffer: 4, Workers: 1, Handles: 4}}
	db := files.New(d, opts)
	stop := run(t, db)
	names := []string{"a", "b.metadata.c", "c.data"}
	for _, name := range names {
		put(t, db, name, 1, 2, []byte("x"))
	}
	stop()
	db = files.New(d, opts)
	if err := db.PopulateMetrics(context.Background()); err != nil {
		t.Fatal(err)
	}
	if got := metrics(t, db); strings.Join(got, " ") != strings.Join(names, " ") {
		t.Fatal(got)
	}
}
'''),
dict(id='c07-reuse-empty', property='C07',
 needs='a crash after a data file was created and before the first value in it was written, and a value out of order after the restart',
 breaks='the empty last file is used as it is, so the end times in the earlier files are not looked at and values are stored out of order',
 edits=[('database/files/metric.go','''		// if the file contains no records, check a previous file as long as
		// there exists one.
		if head == f.Capacity()-1 && m.last > m.first {
			// since this file is empty and there is an earlier file, we should
			// remove it. it must not stay in the cache, because a file
			// created at the path later is a different one.
			m.opts.fch.releaseFile(path, f)
			m.opts.fch.evictFile(path)
			os.Remove(path)
			hook("removed", path)
			m.last--

			continue
		}

''','')],
 pkg='database/files', demo=DBH+'''
func TestDemo(t *testing.T) {
	d := dir(t)
	opts := files.Options{Size: 128, Cap: 3, Files: 4, Tuning: files.Tuning{Buffer: 4, Workers: 1, Handles: 4}}
	db := files.New(d, opts)
	stop := run(t, db)
	for i := int64(0); i < 3; i++ {
		put(t, db, "m", i*10, i*10+5, []byte("x"))
	}
	put(t, db, "other", 0, 5, []byte("x"))
	stop()

	// what is left when the process dies after it created the second file: a
	// file like the first one of a metric before anything is in it.
	stop = run(t, db)
	put(t, db, "empty", 0, 5, bytes.Repeat([]byte("x"), 10000))
	stop()
	empty, err := ioutil.ReadFile(d + "/empty/1.data")
	if err != nil {
		t.Fatal(err)
	}
	if err := ioutil.WriteFile(d+"/m/2.data", empty, 0644); err != nil {
		t.Fatal(err)
	}

	db = files.New(d, opts)
	defer run(t, db)()
	if ok, _ := put(t, db, "m", 1, 2, []byte("y")); ok {
		t.Fatal("accepted")
	}
	if ok, err := put(t, db, "m", 30, 35, []byte("y")); !ok {
		t.Fatal(err)
	}
}
'''),
]

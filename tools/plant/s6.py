import sys; sys.path.insert(0,'/tmp/plant')
from s1 import DBH
from s4 import OPEN
M='database/files/metric.go'
SEEDS=[
dict(id='c09-shared-order', property='C09', needs='a new metric that is written and listed while an earlier listing is in progress',
 breaks='both listings share the sorted names, so that the one in progress repeats a name and misses another',
 edits=[('database/files/internal/sset/set.go',"	out := New(len(s.order))\n	for _, key := range s.order {\n		out.order = append(out.order, key)\n","	out := New(len(s.order))\n	out.order = s.order\n	for _, key := range s.order {\n")], pkg='database/files', demo=DBH+"""
func TestDemo(t *testing.T) {
"""+OPEN%(8,4)+"""	for i := 0; i < 9; i++ {
		if ok, err := put(t, db, fmt.Sprintf("m%d", i), 5, 10, []byte{1}); !ok || err != nil {
			t.Fatal(ok, err)
		}
		metrics(t, db)
	}
	for round := 0; round < 20; round++ {
		var out []string
		seen := map[string]bool{}
		db.Metrics(context.Background(), func(name string) (bool, error) {
			out = append(out, name)
			if seen[name] {
				t.Fatal(name, "is listed twice:", out)
			}
			seen[name] = true
			if len(out) == 3 {
				if ok, err := put(t, db, fmt.Sprintf("a%d", round), 5, 10, []byte{1}); !ok || err != nil {
					t.Fatal(ok, err)
				}
				metrics(t, db)
			}
			return true, nil
		})
		for i := 0; i < 9; i++ {
			if !seen[fmt.Sprintf("m%d", i)] {
				t.Fatal("missing name in", out)
			}
		}
	}
}
"""),
dict(id='c20-shared-candidates', property='C20', needs='records that overlap in part only, so that the set of records changes from pixel to pixel',
 breaks='the columns are made of the records of another pixel',
 edits=[('merge/merger.go',"		to_emit = append(to_emit[:0], cand_emit...)\n","		to_emit = cand_emit\n")], pkg='merge', demo='''package merge_test

import (
	"context"
	"testing"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/merge"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	p := tdigest.Params{Compression: 100}
	rec := func(start, end int64, val float64) data.Record {
		d, _ := p.New()
		d.Observe(val)
		return data.Record{Kind: "tdigest", Distribution: d.Marshal(nil), Observations: 1, Min: val, Max: val, StartTime: start, EndTime: end, Merged: 1}
	}
	m := merge.NewMerger(merge.MergerOptions{Samples: 4, Now: 100, Duration: 100 * time.Nanosecond, Params: p})
	m.SetWidth(10)
	recs := []data.Record{rec(72, 95, 10), rec(41, 75, 20), rec(5, 45, 30)}
	for _, r := range recs {
		if err := m.Push(ctx, r); err != nil {
			t.Fatal(err)
		}
	}
	cols, err := m.Finish(ctx)
	if err != nil {
		t.Fatal(err)
	}
	want := map[[2]float64]bool{{10, 10}: true, {10, 20}: true, {20, 20}: true, {20, 30}: true, {30, 30}: true}
	got := map[[2]float64]bool{}
	for _, col := range cols {
		got[[2]float64{col.Data[0], col.Data[len(col.Data)-1]}] = true
	}
	if len(got) != len(want) {
		t.Fatal(cols)
	}
	for k := range want {
		if !got[k] {
			t.Fatal(k, cols)
		}
	}
}
'''),
dict(id='c15-iterate-moves', property='C15', needs='an iteration between the first observation of one metric and the first one of another, in the same page',
 breaks='the windows of metrics that are first seen later begin at the iteration, not at the capture before',
 edits=[('data/writer.go',"	p := (*page)(pi)\n	now := time.Now()\n\n	// iterate it\n	var buf []byte\n	p.m.Range(func(key, ai interface{}) (ok bool) {\n		var rec Record\n		buf, rec = ai.(*agg).Finish(buf, now)\n		if rec.Observations == 0 {\n			return true\n		}\n		return fn(ctx, key.(string), rec)\n	})\n}\n\nEND","")] , pkg='data', demo='''package data_test

import (
	"context"
	"testing"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/dist/tdigest"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	w := data.NewWriter(tdigest.Params{Compression: 5})
	none := func(ctx context.Context, metric string, rec data.Record) bool { return true }
	w.Add(ctx, "a", 1, nil)
	w.Capture(ctx, none)
	w.Add(ctx, "a", 1, nil)
	w.Iterate(ctx, none)
	w.Add(ctx, "b", 1, nil)
	starts := map[int64]bool{}
	w.Capture(ctx, func(ctx context.Context, metric string, rec data.Record) bool {
		starts[rec.StartTime] = true
		return true
	})
	if len(starts) != 1 {
		t.Fatal("records of one capture start at", starts)
	}
}
'''),
dict(id='c17-returns-early', property='C17', needs='a client that is sending at the moment the context of the listener ends',
 breaks='the listener returns before its connections are done, so that lines are recorded after it has returned',
 edits=[('listener/graphite/listener.go',"		lis.Close()\n		wg.Wait()\n		return nil\n	}\n}\n\n// handleListener","		wg.Add(-1)\n		lis.Close()\n		return nil\n	}\n}\n\n// handleListener")], pkg='listener/graphite', demo='x'),
dict(id='c01-no-copy', property='C01', needs='a value of a single record that is larger than the buffer that is passed to the query',
 breaks='callers are handed the mapped file itself: what they keep of it changes or is gone once the file is unmapped',
 edits=[('database/files/metric.go',"				buf = append(buf[:0], rec.data...)\n\n				// if we have a complete record","				if rec.kind == recordKind_complete && len(rec.data) > cap(buf) {\n					buf = rec.data\n				} else {\n					buf = append(buf[:0], rec.data...)\n				}\n\n				// if we have a complete record")], pkg='database/files', demo=DBH+"""
func TestDemo(t *testing.T) {
"""+OPEN%(8,4)+"""	for i := int64(1); i <= 3; i++ {
		if ok, err := put(t, db, "m", i*10-5, i*10, bytes.Repeat([]byte{byte(i)}, 40-int(i))); !ok || err != nil {
			t.Fatal(ok, err)
		}
	}
	// values are read into the buffer of the one before it
	all(t, db, "m", 1000)
	got, err := all(t, db, "m", 1000)
	if err != nil || len(got) != 3 {
		t.Fatal(got, err)
	}
	for i, v := range got {
		if want := strings.Repeat(string([]byte{byte(3 - i)}), 40-3+i); v.data != want {
			t.Fatalf("%d: %q, want %q", i, v.data, want)
		}
	}
}
"""),
dict(id='c06-latest-unlocked', property='C06', needs='a latest-value query that overlaps a write of the same metric which rotates its data files',
 breaks='the query reads while the files change: it fails, or misses values that are stored',
 edits=[('database/files/db_read.go',"	db.locks.Lock(metric)\n	defer db.locks.Unlock(metric)\n\n	// acquire the datastructure encapsulating metric read logic\n	met, err := db.newMetric(ctx, metric, true)\n	if err != nil {\n		return 0, 0, nil, err\n	}\n\n	return","	db.locks.Lock(metric)\n\n	// acquire the datastructure encapsulating metric read logic\n	met, err := db.newMetric(ctx, metric, true)\n	db.locks.Unlock(metric)\n	if err != nil {\n		return 0, 0, nil, err\n	}\n\n	return")], pkg='database/files', demo=DBH+"""
func TestDemo(t *testing.T) {
	db := files.New(dir(t), files.Options{Size: 128, Cap: 1, Files: 1, Tuning: files.Tuning{Buffer: 4, Workers: 1, Handles: 1}})
	defer run(t, db)()
	if ok, err := put(t, db, "m", 0, 1, []byte{1}); !ok || err != nil {
		t.Fatal(ok, err)
	}
	stop := make(chan bool)
	bad := make(chan string, 100)
	var wg sync.WaitGroup
	for i := 0; i < 6; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				_, end, _, err := db.QueryLatest(context.Background(), "m", nil)
				if err != nil || end == 0 {
					select {
					case bad <- fmt.Sprint(end, err):
					default:
					}
					return
				}
			}
		}()
	}
	for i := int64(2); i < 4000 && len(bad) == 0; i++ {
		if ok, err := put(t, db, "m", i-1, i, []byte{1}); !ok || err != nil {
			t.Fatal(ok, err)
		}
	}
	close(stop)
	wg.Wait()
	if len(bad) > 0 {
		t.Fatal("a metric with values has none:", <-bad)
	}
}
"""),
]
SEEDS=[s for s in SEEDS if s['id'] not in ('c17-returns-early',)]
# iterate: the second occurrence of the window code
i=[s for s in SEEDS if s['id']=='c15-iterate-moves'][0]
i['edits']=[('data/writer.go',"""	// read the page out. iterate does not clear out the page so we just need
	// to read and if we have no page, we're done.
	pi := atomic.LoadPointer(&s.page)
	if pi == nil {
		return
	}
	p := (*page)(pi)
	now := time.Now()
""","""	// read the page out. iterate does not clear out the page so we just need
	// to read and if we have no page, we're done.
	pi := atomic.LoadPointer(&s.page)
	if pi == nil {
		return
	}
	p, now := (*page)(pi), time.Now()
	p.now = now
""")]

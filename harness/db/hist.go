package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"

	"github.com/vivint/rothko/internal/zzverif/hk"
)

// history drives one database through a random history, comparing every
// answer with the model.
type history struct {
	reporter
	c     *hk.C
	dir   string
	cf    conf
	n     *node
	ms    []*model
	confs []conf

	stale, over, overlap, bounds, reopen int // weights of the operations
	sameConf                             bool
	trees                                bool // compare the directory around queries
	counts                               bool // watch the number and size of files
	prev                                 map[string]int
	prevNames                            map[string]string
	ops                                  int
}

func kinds(ks ...string) map[string]bool {
	out := map[string]bool{}
	for _, k := range ks {
		out[k] = true
	}
	return out
}

func newHistory(c *hk.C, ks map[string]bool) *history {
	h := &history{
		reporter: reporter{c, ks}, c: c,
		dir: c.R.TempDir(), cf: randConf(c.Rand),
		stale: 10, over: 4, overlap: 3, bounds: 15, reopen: 6,
	}
	names := []string{"a", "b.c", "b.c.d"}
	for _, name := range names[:c.Range(1, 3)] {
		h.ms = append(h.ms, &model{name: name, refused: map[int64]int{}})
	}
	return h
}

func (h *history) open() {
	h.confs = append(h.confs, h.cf)
	h.c.Logf("open %+v", h.cf)
	h.n = start(h.dir, h.cf)
}

func (h *history) close() {
	if err := h.n.stop(); err != nil {
		h.fail("error", "stopping: %v", err)
	}
	h.c.Logf("stop")
}

func (h *history) end() {
	h.close()
	os.RemoveAll(h.dir)
}

// length picks the length of a value around the boundaries of the layout.
func (h *history) length() int {
	cf, r := h.cf, h.c
	switch k := r.Intn(12); {
	case k == 0:
		return 0
	case k == 1:
		return 1
	case k < 5:
		return r.Range(0, cf.chunk())
	case k < 8:
		n := r.Range(1, cf.Cap)*cf.chunk() + r.Range(-1, 1)
		if n > cf.bytes() {
			n = cf.bytes()
		}
		return n
	case k == 8:
		return cf.bytes()
	default:
		return r.Range(0, min(cf.bytes(), 3*cf.chunk()))
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// step returns how much later the next end is.
func (h *history) step() int64 {
	r := h.c
	switch r.Intn(8) {
	case 0, 1, 2:
		return 1
	case 3:
		return int64(r.Range(1, 3))
	case 4:
		return 1 << uint(r.Range(0, 50))
	default:
		return int64(r.Range(1, 1000))
	}
}

func (h *history) base() int64 {
	r := h.c
	switch r.Intn(9) {
	case 0:
		return 0
	case 1:
		return -int64(r.Range(0, 20))
	case 2:
		return minTime
	case 3:
		return maxTime - int64(r.Range(1, 60))
	case 4:
		return -1 << 40
	default:
		return int64(r.Range(0, 1<<30))
	}
}

// put writes a value and checks the answer.
func (h *history) put(m *model) {
	r := h.c
	latest, some := m.latest()

	var v value
	kind := "normal"
	w := r.Intn(100)
	switch {
	case some && w < h.stale:
		kind = "stale"
		v.end = latest
		if r.P(1, 2) {
			v.end = addSat(latest, -h.step())
		}
		v.start = addSat(v.end, -h.step())
		v.data = r.Bytes(h.length())
	case w < h.stale+h.over:
		kind = "over"
		v.start = latest
		if !some {
			v.start = h.base()
		}
		v.end = addSat(v.start, h.step())
		v.data = r.Bytes(h.cf.bytes() + r.Pick(1, 1, 2, h.cf.chunk(), h.cf.bytes()))
	case some && w < h.stale+h.over+h.overlap:
		kind = "overlap"
		v.start = addSat(latest, -h.step())
		v.end = addSat(latest, h.step())
		v.data = r.Bytes(h.length())
	default:
		if !some {
			v.start = h.base()
			v.end = v.start
			if r.P(3, 4) {
				v.end = addSat(v.start, h.step())
			}
			if r.P(1, 20) {
				v.end, v.start = v.start, v.end
			}
		} else {
			v.start = latest
			if r.P(1, 5) {
				v.start = addSat(latest, h.step())
			}
			v.end = addSat(v.start, h.step())
			if r.P(1, 60) {
				v.end, v.start = v.start, v.end
			} else if r.P(1, 40) {
				v.start = addSat(v.end, h.step()) // nothing says it is before the end
			}
		}
		v.data = r.Bytes(h.length())
	}

	// before the answer is checked, decide what it has to be.
	fits := h.cf.fits(len(v.data))
	older := false // an earlier configuration would have room
	for _, cf := range h.confs {
		if cf.fits(len(v.data)) {
			older = true
		}
	}
	behind := some && v.end <= latest

	var before []value
	var berr error
	if (kind == "stale" || kind == "over") && h.kinds["refusal"] {
		before, berr = h.n.read(m.name, maxTime)
	}

	a := h.n.put(m.name, v.start, v.end, v.data)
	h.c.Logf("put %s %v (%s): %v %v", m.name, v, kind, a.ok, a.err)
	h.c.Sig(kind, v.start, v.end, len(v.data), a.ok)
	h.Count("puts:"+kind, 1)
	h.ops++

	if a.ok && a.err != nil {
		h.fail("accept", "put of %v to %q reported as written with the error %v", v, m.name, a.err)
	}
	switch {
	case behind && a.ok:
		h.fail("accept", "put of %v to %q accepted, the latest end was %d", v, m.name, latest)
	case behind && a.err != nil && fits:
		h.fail("accept", "put of %v to %q behind the latest end %d failed: %v", v, m.name, latest, a.err)
	case behind:
	case !fits && !older && a.err == nil:
		h.fail("accept", "put of %v to %q that can not fit was not reported as an error (%v)", v, m.name, a.ok)
	case fits && (!some || v.start >= latest) && !a.ok:
		h.fail("accept", "put of %v to %q was not accepted (error %v), the latest end was %d (%v)",
			v, m.name, a.err, latest, some)
	}

	if a.ok {
		m.vals = append(m.vals, v)
		if v.end == maxTime {
			m.hidden++
		}
		if fits {
			m.maxnr = max(m.maxnr, h.cf.slots(len(v.data)))
		} else {
			m.free = true
		}
		delete(m.refused, v.end)
	} else if _, ok := m.find(v.end); !ok {
		m.refused[v.end]++
	}

	if !a.ok && h.kinds["refusal"] && (kind == "stale" || kind == "over") {
		after, aerr := h.n.read(m.name, maxTime)
		if d := diffValues(before, after); d != "" || (berr == nil) != (aerr == nil) && len(m.vals) > 0 {
			h.fail("refusal", "put of %v to %q was refused (error %v), but changed what is stored: %s (%v, %v)",
				v, m.name, a.err, d, berr, aerr)
		}
		h.Count("refusals_checked", 1)
	}
	if h.counts {
		h.checkFiles()
	}
}

func diffValues(a, b []value) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d values instead of %d", len(b), len(a))
	}
	for i := range a {
		if !a[i].same(b[i]) {
			return fmt.Sprintf("%v instead of %v", b[i], a[i])
		}
	}
	return ""
}

// checkFiles watches the number and size of the data files.
func (h *history) checkFiles() {
	count, largest, names := dataFiles(h.dir)
	limit := h.cf.Files + 1
	var size int64
	for _, cf := range h.confs {
		if s := int64(cf.Size) * int64(cf.Cap+1); s > size {
			size = s
		}
	}
	for d, n := range count {
		if h.cf.Files > 0 && n > limit && (names[d] != h.prevNames[d]) {
			h.fail("files", "%d data files for %q, the limit is %d + 1: %s", n, d, h.cf.Files, names[d])
		}
		if largest[d] > size {
			h.fail("files", "data file with %d bytes for %q, it should not be larger than %d", largest[d], d, size)
		}
		h.c.R.Max("max_files", int64(n))
		if names[d] != h.prevNames[d] {
			h.Count("file_set_changes", 1)
		}
	}
	h.prev, h.prevNames = count, names
	h.Count("file_checks", 1)
}

// check compares a query with the largest bound with the model.
func (h *history) check(m *model) []value {
	got, err := h.n.read(m.name, maxTime)
	m.checkFull(h.reporter, h.cf, got, err)
	h.Count("full_queries", 1)
	return got
}

// probe compares queries with bounds, the latest value and what consumers
// cause with the result of a full query.
func (h *history) probe(m *model) {
	r := h.c
	ctx := context.Background()

	var tree map[string]string
	if h.trees {
		tree = treeHash(h.dir)
	}

	got := h.check(m)
	exists := len(m.vals) > 0

	for i := 0; i < 4; i++ {
		var bound int64
		switch k := r.Intn(10); {
		case k == 0:
			bound = int64(r.Pick(0, 1, -1))
		case k == 1:
			bound = minTime + int64(r.Pick(0, 0, 1))
		case k == 2:
			bound = maxTime - 1
		case len(m.vals) > 0:
			v := m.vals[r.Intn(len(m.vals))]
			if r.P(1, 4) {
				v.end = v.start
			}
			bound = addSat(v.end, int64(r.Pick(0, 0, 1, -1)))
		}
		part, err := h.n.read(m.name, bound)
		if err != nil {
			if exists {
				h.fail("error", "query of %q before %d: %v", m.name, bound, err)
			}
			continue
		}
		var want []value
		for _, v := range got {
			if v.end < bound {
				want = append(want, v)
			}
		}
		if d := diffValues(want, part); d != "" {
			h.fail("bounded", "query of %q before %d: %s, out of %v", m.name, bound, d, got)
		}
		h.c.Sig(bound, len(part))
		h.Count("bounded_queries", 1)
		if len(part) > 0 && len(part) < len(got) {
			h.Count("bounded_queries_partial", 1)
		}
	}

	// the consumer stops or fails
	if len(got) > 0 {
		stop := r.Intn(len(got))
		fail := r.P(1, 2)
		boom := errors.New("consumer failed")
		var seen []value
		err := h.n.Query(ctx, m.name, maxTime, nil,
			func(_ context.Context, start, end int64, data []byte) (bool, error) {
				seen = append(seen, value{start, end, append([]byte(nil), data...)})
				if len(seen)-1 == stop {
					if fail {
						return true, boom
					}
					return false, nil
				}
				return true, nil
			})
		if d := diffValues(got[:stop+1], seen); d != "" {
			h.fail("consumer", "query of %q stopped after %d: %s", m.name, stop+1, d)
		}
		if fail && unwrap(err) != boom {
			h.fail("consumer", "query of %q with a failing consumer returned %v", m.name, err)
		}
		if !fail && err != nil {
			h.fail("consumer", "query of %q with a stopping consumer returned %v", m.name, err)
		}
		h.Count("stopped_queries", 1)
	}

	// the context ends inside of a query
	if len(got) > 0 {
		stop := r.Intn(len(got))
		cctx, cancel := context.WithCancel(ctx)
		var seen []value
		err := h.n.Query(cctx, m.name, maxTime, nil,
			func(_ context.Context, start, end int64, data []byte) (bool, error) {
				seen = append(seen, value{start, end, append([]byte(nil), data...)})
				if len(seen)-1 == stop {
					cancel()
				}
				return true, nil
			})
		cancel()
		if len(seen) > len(got) || diffValues(got[:len(seen)], seen) != "" {
			h.fail("context", "query of %q whose context ended after %d returned %v, out of %v", m.name, stop+1, seen, got)
		} else if err == nil && len(seen) != len(got) {
			h.fail("context", "query of %q whose context ended after %d of %d values returned %d and no error", m.name, stop+1, len(got), len(seen))
		}
		if len(seen) != len(got) {
			h.Count("queries_cut_by_context", 1)
		}
	}

	// the latest value
	var buf []byte
	if r.P(1, 2) {
		buf = make([]byte, 0, r.Range(0, 2000))
	}
	start, end, data, err := h.n.QueryLatest(ctx, m.name, buf)
	switch {
	case err != nil && exists:
		h.fail("error", "latest value of %q: %v", m.name, err)
	case err != nil:
	case len(got) == 0:
		if start != 0 || end != 0 || len(data) != 0 {
			h.fail("latest", "latest value of %q without any is %v", m.name, value{start, end, data})
		}
	default:
		if l := (value{start, end, data}); !l.same(got[0]) {
			h.fail("latest", "latest value of %q is %v, a query returns %v first", m.name, l, got[0])
		}
	}
	h.Count("latest_queries", 1)

	if h.trees {
		// a missing metric must not come to exist either
		h.n.read("not.there", maxTime)
		h.n.QueryLatest(ctx, "not.there", nil)
		if d := treeDiff(tree, treeHash(h.dir)); d != "" {
			h.fail("readonly", "queries changed the directory: %s", d)
		}
		h.Count("directory_comparisons", 1)
	}
}

// change restarts the database, perhaps with other settings.
func (h *history) change(same bool) {
	// what is retained when it stops
	for _, m := range h.ms {
		h.check(m)
	}
	h.close()
	if h.c.P(1, 3) {
		for _, m := range h.ms {
			off := h.c.Pick(1, 8, 9, 90, 99, 990, 999, 9990, 32760, 65530, 99998, 1<<31-5, 1<<32-3)
			if renumber(filepath.Join(h.dir, dirOf(m.name)), off) {
				h.Count("renumbered", 1)
			}
		}
	}
	count, _, names := dataFiles(h.dir)
	h.prev, h.prevNames = count, names
	if !same {
		old := h.cf
		h.cf = randConf(h.c.Rand)
		switch h.c.Intn(4) {
		case 0: // only the limit of files
			files := h.cf.Files
			h.cf = old
			h.cf.Files = files
		case 1: // only the tuning
			h.cf.Size, h.cf.Cap, h.cf.Files = old.Size, old.Cap, old.Files
		}
		for _, m := range h.ms {
			m.epoch = len(m.vals)
			m.maxnr = 0
			m.files0 = count[dirOf(m.name)]
		}
		h.Count("reconfigured", 1)
	}
	h.open()
	for _, m := range h.ms {
		h.check(m)
	}
	h.Count("reopened", 1)
}

// dirOf maps the names this harness uses to directories.
func dirOf(name string) string {
	out := []byte(name)
	for i := range out {
		if out[i] == '.' {
			out[i] = '/'
		}
	}
	return string(out)
}

func (h *history) run(ops int) {
	defer h.end()
	h.open()
	r := h.c
	for i := 0; i < ops && !h.c.Failed(); i++ {
		m := h.ms[r.Intn(len(h.ms))]
		switch w := r.Intn(100); {
		case w < h.bounds:
			h.probe(m)
		case w < h.bounds+h.reopen:
			h.change(h.sameConf || r.P(1, 2))
		default:
			h.put(m)
			if r.P(1, 2) {
				h.check(m)
			}
		}
	}
	if !h.c.Failed() {
		for _, m := range h.ms {
			h.check(m)
		}
	}
	var vals, gone int
	for _, m := range h.ms {
		vals += len(m.vals)
		gone += m.lo
	}
	if vals > 0 {
		h.c.NonTrivial()
	}
	h.c.Sample(map[string]interface{}{
		"settings": fmt.Sprintf("%+v", h.confs[0]), "restarts": len(h.confs) - 1,
		"accepted": vals, "retired": gone, "metrics": len(h.ms),
	})
}

func c01(r *hk.Run) {
	r.Rule("random histories of writes, queries and restarts (with the same or other settings) over 1-3 metrics; lengths around multiples of the chunk size and the file size, times over the whole int64 range; non-trivial if values were accepted, distinct by the sequence of operations and answers")
	r.Cases("history", r.N(700, 30000), 8, func(c *hk.C) {
		h := newHistory(c, kinds("content", "phantom", "hole", "lost", "error", "order"))
		h.reopen = c.Pick(4, 10, 20)
		h.run(c.Range(20, 140))
	})
	r.Cases("rotation", r.N(250, 6000), 8, func(c *hk.C) {
		h := newHistory(c, kinds("content", "phantom", "hole", "lost", "error", "order"))
		h.cf.Cap = c.Range(1, 3)
		h.cf.Handles = c.Pick(-1, 1, 2)
		h.stale, h.over, h.reopen = 3, 6, 3
		h.run(c.Range(100, 300))
	})
	// values and metrics far larger than the others
	r.Cases("large", r.N(6, 100), 3, func(c *hk.C) { large(c) })
	r.Require("values_compared", 1000)
	r.Require("values_retired", 100)
	r.Require("reconfigured", 50)
	r.Require("largest_value", 1<<20)
	r.Require("most_values_of_a_metric", 1500)
}

// large stores large values, or many.
func large(c *hk.C) {
	cf := conf{Workers: c.Range(1, 2), Handles: c.Pick(-1, 1, 64), Buffer: 1}
	var lengths []int
	switch c.Index % 3 {
	case 0: // large values
		cf.Size, cf.Cap, cf.Files = c.Pick(1024, 4096, 65559), 0, 0
		most := c.Range(1<<20, 6<<20)
		cf.Cap = cf.slots(most) + c.Pick(0, 1, 100)
		for i := 0; i < 5; i++ {
			lengths = append(lengths, c.Pick(most, 1<<16, 1<<16-1, 1<<20, c.Intn(most)))
		}
	case 1: // many data files
		cf.Size, cf.Cap = 100, 1
		for i := c.Range(1500, 2000); i > 0; i-- {
			lengths = append(lengths, c.Intn(cf.bytes()))
		}
	default: // many values in a data file
		cf.Size, cf.Cap = c.Pick(100, 128), c.Range(40000, 80000)
		for i := c.Range(2000, 4000); i > 0; i-- {
			lengths = append(lengths, c.Intn(10*cf.chunk()))
		}
	}
	c.Logf("%+v", cf)
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	n := start(dir, cf)
	defer func() { n.stop() }()
	var stored []value
	check := func(when string) {
		var want []value
		for i := len(stored) - 1; i >= 0; i-- {
			want = append(want, stored[i])
		}
		got, err := n.read("m", maxTime)
		if d := diffValues(want, got); d != "" || err != nil {
			if len(d) > 300 {
				d = d[:300]
			}
			c.Failf("content", "%s: %d values stored, %d returned, error %v: %s", when, len(want), len(got), err, d)
		}
		at := c.Intn(len(want))
		start, end, data, err := n.QueryLatest(context.Background(), "m", nil)
		if l := (value{start, end, data}); err != nil || !l.same(want[0]) {
			c.Failf("content", "%s: the latest value is %v (error %v) instead of %v", when, l, err, want[0])
		}
		got, err = n.read("m", want[at].end)
		if d := diffValues(want[at+1:], got); d != "" || err != nil {
			c.Failf("content", "%s: %d values before a bound, %d returned, error %v", when, len(want)-at-1, len(got), err)
		}
		c.Count("values_compared", int64(len(want)))
		hk.Progress()
	}
	for i, k := range lengths {
		v := value{int64(i), int64(i + 1), c.Bytes(k)}
		if a := n.put("m", v.start, v.end, v.data); !a.ok || a.err != nil {
			c.Failf("lost", "value %d of %d, %v, was answered %+v", i, len(lengths), v, a)
			return
		}
		stored = append(stored, v)
		c.R.Max("largest_value", int64(k))
	}
	check("before a restart")
	n.stop()
	n = start(dir, cf)
	check("after a restart")
	v := value{int64(len(stored)), int64(len(stored)) + 1, []byte("one more")}
	if a := n.put("m", v.start, v.end, v.data); !a.ok {
		c.Failf("lost", "a value after a restart was answered %+v", a)
		return
	}
	stored = append(stored, v)
	check("after one more value")
	c.R.Max("most_values_of_a_metric", int64(len(stored)))
	c.Sig("large", cf, len(stored))
	c.NonTrivial()
}

func c02(r *hk.Run) {
	r.Rule("random histories as for C01, with queries for bounds at, one before and one after stored starts and ends and the extremes of int64, consumers that stop or fail after a random number of values, latest-value queries and directory comparisons around queries; distinct by the sequence of operations, bounds and numbers of results")
	r.Cases("history", r.N(600, 20000), 8, func(c *hk.C) {
		h := newHistory(c, kinds("content", "phantom", "hole", "order", "bounded", "latest", "consumer", "context", "readonly", "error", "resurrect"))
		h.bounds = 45
		h.trees = c.P(1, 3)
		h.run(c.Range(20, 120))
	})
	r.Require("bounded_queries_partial", 500)
	r.Require("stopped_queries", 200)
	r.Require("directory_comparisons", 200)
}

func c03(r *hk.Run) {
	r.Rule("random histories with many values behind the latest end and values around and beyond the size of a data file; the stored values are compared before and after each refusal; distinct by the sequence of operations and answers")
	r.Cases("history", r.N(800, 25000), 8, func(c *hk.C) {
		h := newHistory(c, kinds("accept", "refusal", "phantom", "lost", "hole", "error"))
		h.stale, h.over, h.overlap = 25, 18, 3
		h.bounds = 3
		h.sameConf = c.P(3, 4)
		h.run(c.Range(20, 140))
	})
	// sizes and capacities that can not work are errors, and do no harm.
	r.Cases("unusable", r.N(60, 600), 8, func(c *hk.C) {
		dir := c.R.TempDir()
		defer os.RemoveAll(dir)
		good := randConf(c.Rand)
		bad := good
		switch c.Intn(3) {
		case 0:
			bad.Size = c.Pick(0, -1, 1, header, header+1, 30, -100, 65560, 65561, 100000, 1<<31, -1<<31, 1<<62)
		case 1:
			bad.Cap = c.Pick(0, -1, -5, 1<<31, 1<<40, 1<<62, -1<<62)
		default:
			bad.Cap = c.Pick(1<<30, 1<<28)
			bad.Size = c.Pick(4096, 1024)
		}
		bad.Buffer, bad.Workers = c.Pick(-1, -1<<40, 0, 2), c.Pick(-1, -1<<40, 0, 1)
		c.Logf("good %+v bad %+v", good, bad)
		c.Sig(bad.Size, bad.Cap, good)
		c.NonTrivial()
		first := c.P(1, 2)
		var stored []value
		if first {
			n := start(dir, good)
			for i := 0; i < 3; i++ {
				v := value{int64(i), int64(i + 1), c.Bytes(c.Range(0, 50))}
				if a := n.put("m", v.start, v.end, v.data); !a.ok {
					c.Failf("accept", "put of %v: %v", v, a)
				}
				stored = append([]value{v}, stored...)
			}
			stored, _ = n.read("m", maxTime)
			n.stop()
		}
		n := start(dir, bad)
		name := "m"
		if first {
			name = "other"
		}
		for i := 0; i < 3; i++ {
			a := n.put(name, int64(i), int64(i+1), c.Bytes(40))
			if a.ok || a.err == nil {
				c.Failf("accept", "put with the settings %+v: %v", bad, a)
			}
		}
		if err := n.stop(); err != nil {
			c.Failf("error", "stop: %v", err)
		}
		n = start(dir, good)
		if first {
			got, err := n.read("m", maxTime)
			if d := diffValues(stored, got); d != "" || err != nil {
				c.Failf("refusal", "after running with %+v: %s, %v", bad, d, err)
			}
		}
		for i := 10; i < 13; i++ {
			data := c.Bytes(20)
			if a := n.put(name, int64(i), int64(i+1), data); !a.ok || a.err != nil {
				c.Failf("accept", "put after running with %+v: %v", bad, a)
			}
			got, err := n.read(name, maxTime)
			if err != nil || len(got) == 0 || !got[0].same(value{int64(i), int64(i + 1), data}) {
				c.Failf("refusal", "after running with %+v: %v %v", bad, got, err)
			}
		}
		n.stop()
		c.Count("unusable_settings", 1)
	})
	// a size either works for every value, or for none: whether it does must
	// not depend on the times or how full the file is.
	r.Cases("narrow", r.N(300, 8000), 8, func(c *hk.C) {
		dir := c.R.TempDir()
		defer os.RemoveAll(dir)
		cf := conf{Size: header + c.Range(1, 72), Cap: c.Pick(1, 2, 3, 5), Files: c.Pick(0, 2), Workers: 1, Handles: c.Pick(-1, 4)}
		n := start(dir, cf)
		defer func() { n.stop() }()
		c.Logf("%+v", cf)
		// a probe whose times are as short as they get
		works := n.put("probe", 0, 1, []byte{1}).ok
		ends := []int64{-1 << 63, -1<<63 + 1, -1 << 62, -1 << 33, -1000, -2, -1, 0, 1, 2, 100, 127, 128, 1 << 20, 1 << 35, 1 << 62, 1<<63 - 3, 1<<63 - 2}
		at := c.Intn(len(ends) / 2)
		var stored []value
		for i := 0; i < 12 && at < len(ends); i++ {
			v := value{ends[at], ends[at], c.Bytes(c.Pick(0, 1, cf.chunk(), c.Range(0, cf.bytes())))}
			if c.P(1, 3) {
				v.start = pick64(c.Rand, -1<<63, -1, 0, 5)
				if len(stored) > 0 && v.start < stored[0].end {
					v.start = stored[0].end
				}
				if v.start > v.end {
					v.start = v.end
				}
			}
			at += c.Range(1, 2)
			a := n.put("m", v.start, v.end, v.data)
			c.Logf("%v: %v", v, a)
			if a.ok != works || works && a.err != nil || !works && a.err == nil {
				c.Failf("accept", "with records of %d bytes some values can be stored (%v) but %v: %v", cf.Size, works, v, a)
				return
			}
			if a.ok {
				stored = append([]value{v}, stored...)
			}
			if c.P(1, 4) {
				n.stop()
				n = start(dir, cf)
			}
			got, err := n.read("m", maxTime)
			if err != nil && works {
				c.Failf("error", "read: %v", err)
				return
			}
			if len(got) > len(stored) || len(got) == 0 && works || len(got) < len(stored) && cf.Files == 0 {
				c.Failf("refusal", "%d values stored, %d returned", len(stored), len(got))
				return
			}
			if d := diffValues(stored[:len(got)], got); d != "" {
				c.Failf("refusal", "%s", d)
				return
			}
		}
		c.Sig(cf, works, at)
		if works {
			c.NonTrivial()
			c.Count("narrow sizes that work", 1)
		} else {
			c.Count("narrow sizes that do not", 1)
		}
	})
	r.Require("refusals_checked", 1000)
	r.Require("narrow sizes that work", 50)
	r.Require("narrow sizes that do not", 50)
	r.Require("puts:over", 500)
}

func c04(r *hk.Run) {
	r.Rule("long histories over small files, with a full query and a look at the directory after every write; distinct by the sequence of operations and answers")
	r.Cases("history", r.N(350, 9000), 8, func(c *hk.C) {
		h := newHistory(c, kinds("hole", "lost", "files", "resurrect", "error"))
		h.cf.Cap = c.Range(1, 6)
		h.stale, h.over, h.bounds = 4, 4, 0
		h.reopen = c.Pick(0, 3, 8)
		h.sameConf = c.P(1, 3)
		h.counts = true
		h.run(c.Range(60, 250))
	})
	r.Require("file_set_changes", 1000)
	r.Require("values_retired", 500)
}

func pick64(r *hk.Rand, xs ...int64) int64 { return xs[r.Intn(len(xs))] }

package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/internal/zzverif/hk"
)

//
// C07. the process dying leaves the files as they are at that instant, since
// the database maps them shared. the hook is called between the effects of
// the database, so a copy of the directory taken there is what a crash at
// that point leaves behind. stores between two points are covered by copies
// where only a prefix of what changed is there.
//

// image is the content of a directory.
type image map[string][]byte

func readImage(dir string) image {
	out := image{}
	filepath.Walk(dir, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, path)
		if fi.IsDir() {
			out[rel+"/"] = nil
			return nil
		}
		data, err := ioutil.ReadFile(path)
		if err == nil {
			out[rel] = data
		}
		return nil
	})
	return out
}

func writeImage(dir string, im image) {
	for rel, data := range im {
		path := filepath.Join(dir, rel)
		if strings.HasSuffix(rel, "/") {
			os.MkdirAll(path, 0755)
			continue
		}
		os.MkdirAll(filepath.Dir(path), 0755)
		if err := ioutil.WriteFile(path, data, 0644); err != nil {
			panic(err)
		}
	}
}

func sameImage(a, b image) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !bytes.Equal(v, w) {
			return false
		}
	}
	return true
}

var recorders sync.Map // dir -> *recorder

// recorder collects the images of a directory.
type recorder struct {
	dir    string
	on     bool
	images []image
	points []string
}

func (rec *recorder) snap(point string) {
	im := readImage(rec.dir)
	if len(rec.images) > 0 && sameImage(im, rec.images[len(rec.images)-1]) {
		return
	}
	rec.images = append(rec.images, im)
	rec.points = append(rec.points, point)
}

func crashHook(point, name string) {
	recorders.Range(func(k, v interface{}) bool {
		rec := v.(*recorder)
		if rec.on && strings.HasPrefix(name, k.(string)+"/") {
			rec.snap(point)
		}
		return true
	})
}

// crashState is what the metric may have after a crash: everything that was
// acknowledged, except for what retention may remove because of the write in
// flight, and perhaps the value in flight.
type crashState struct {
	m        *model
	inflight *value
	other    *model
	before   []value // what a query returned before the write, newest first
	obefore  []value
}

func c07(r *hk.Run) {
	r.Rule("every hook point of every write of random histories (creation, allocation, publication and removal of data files, each record, metadata) is taken as a crash point: the directory as of then, and versions of it where only a prefix of the bytes stored since the previous point is there, are reopened by a new database; it has to have everything acknowledged, the value in flight entirely or not at all, accept later values and still have them after another restart, or another crash. non-trivial if the image differs from those before and after the write; distinct by the point, the history and the image")
	files.Hook = crashHook
	r.Cases("points", r.N(120, 5000), 8, func(c *hk.C) { crashPoints(c) })
	if r.Thorough() {
		r.Cases("kill", 400, 8, func(c *hk.C) { crashKill(c) })
	} else {
		r.Cases("kill", 24, 8, func(c *hk.C) { crashKill(c) })
	}
	r.Cases("metadata", 4, 1, tornMetadata)
	for _, p := range []string{"created", "allocated", "prepared", "published", "removed", "record", "metadata"} {
		r.Require("images:"+p, 20)
	}
	r.Require("images:torn", 500)
	r.Require("reopened_images", 2000)
	r.Require("reopened_with_other_settings", 300)
}

func crashPoints(c *hk.C) {
	cf := conf{
		Size: c.Pick(100, 100, 128, 200), Cap: c.Pick(1, 2, 3, 4, 6), Files: c.Pick(0, 1, 1, 2, 3),
		Handles: c.Pick(-1, 1, 4), Workers: 1,
	}
	base := c.R.TempDir()
	defer os.RemoveAll(base)
	dir := filepath.Join(base, "data")
	os.MkdirAll(dir, 0755)
	rec := &recorder{dir: dir}
	recorders.Store(dir, rec)
	defer recorders.Delete(dir)

	n := start(dir, cf)
	defer func() { n.stop() }()
	name, oname := "a.b", "a"
	m := &model{name: name, refused: map[int64]int{}}
	o := &model{name: oname, refused: map[int64]int{}}
	rp := reporter{c, kinds("content", "phantom", "hole", "lost", "error", "order", "resurrect")}

	length := func() int {
		switch c.Intn(5) {
		case 0:
			return c.Range(0, cf.chunk())
		case 1:
			return cf.bytes()
		default:
			return c.Range(0, cf.bytes())
		}
	}
	c.Logf("%+v", cf)
	end := int64(c.Pick(0, 0, -3, 1000, -1<<40))

	writes := c.Range(3, 14)
	for i := 0; i < writes && !c.Failed(); i++ {
		mm := m
		if c.P(1, 4) {
			mm = o
		}
		bm, _ := n.read(m.name, maxTime)
		bo, _ := n.read(o.name, maxTime)
		if c.P(1, 6) { // start over with an empty cache
			n.stop()
			n = start(dir, cf)
		}
		v := value{end, end + int64(c.Range(1, 5)), c.Bytes(length())}
		end = v.end
		rec.images, rec.points = nil, nil
		rec.snap("before")
		rec.on = true
		a := n.put(mm.name, v.start, v.end, v.data)
		rec.on = false
		rec.snap("after")
		c.Logf("put %s %v: %v", mm.name, v, a)
		if !a.ok || a.err != nil {
			c.Failf("error", "put of %v to %q: %v", v, mm.name, a)
			return
		}
		st := crashState{m: mm, inflight: &v, other: o, before: bm, obefore: bo}
		if mm == o {
			st.other, st.before, st.obefore = m, bo, bm
		}
		images, points := rec.images, rec.points
		for j := range images {
			im, point := images[j], points[j]
			checkImage(c, rp, base, cf, st, im, fmt.Sprintf("put %d of %s, at %s (%d of %d)", i, mm.name, point, j, len(images)), 0)
			c.Count("images:"+point, 1)
			if j > 0 && j < len(images)-1 {
				c.NonTrivial()
			}
			if j > 0 {
				for _, torn := range tear(c, cf, images[j-1], im) {
					checkImage(c, rp, base, cf, st, torn, fmt.Sprintf("put %d of %s, torn between %s and %s", i, mm.name, points[j-1], point), 0)
					c.Count("images:torn", 1)
				}
			}
			c.Sig(point, len(v.data), j)
			if c.Failed() {
				return
			}
		}
		mm.vals = append(mm.vals, v)
		mm.maxnr = max(mm.maxnr, cf.slots(len(v.data)))
		got, err := n.read(mm.name, maxTime)
		mm.checkFull(rp, cf, got, err)
	}
	c.Sample(fmt.Sprintf("%+v: %d and %d values", cf, len(m.vals), len(o.vals)))
}

// tear returns images where only a part of what one store after the other did
// is there. memory is stored to front to back by the copies the database
// does. the metadata record is excluded: it is stored by one copy, and the
// window of tearing that is a finding of its own.
func tear(c *hk.C, cf conf, a, b image) (out []image) {
	for name, nb := range b {
		na, ok := a[name]
		if !ok || len(na) != len(nb) || bytes.Equal(na, nb) {
			continue
		}
		var diff []int
		for i := range nb {
			if na[i] != nb[i] {
				diff = append(diff, i)
			}
		}
		if diff[0] < cf.Size {
			continue
		}
		// the header, its parts, and the data
		cuts := map[int]bool{1: true, len(diff) - 1: true}
		for i := 0; i < 4; i++ {
			cuts[c.Range(1, len(diff))] = true
		}
		for cut := 1; cut < len(diff); cut++ {
			if !cuts[cut] {
				continue
			}
			torn := append([]byte(nil), na...)
			for _, i := range diff[:cut] {
				torn[i] = nb[i]
			}
			im := image{}
			for k, v := range a {
				im[k] = v
			}
			im[name] = torn
			out = append(out, im)
		}
	}
	return out
}

// checkImage reopens an image and checks what is in it.
func checkImage(c *hk.C, rp reporter, base string, cf conf, st crashState, im image, what string, depth int) {
	dir, err := ioutil.TempDir(base, "image")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	writeImage(dir, im)
	c.Count("reopened_images", 1)

	rec := &recorder{dir: dir}
	recorders.Store(dir, rec)
	defer recorders.Delete(dir)

	fail := func(format string, args ...interface{}) {
		c.Failf("crash", "%s: %s", what, fmt.Sprintf(format, args...))
	}

	was := cf
	cf.Handles = 2
	if c.P(1, 4) {
		// the settings change as well
		cf.Size, cf.Cap = c.Pick(100, 128, 200, 256), c.Pick(1, 2, 3, 5, 8)
		what += fmt.Sprintf(", reopened with size %d and cap %d", cf.Size, cf.Cap)
		c.Count("reopened_with_other_settings", 1)
	}
	n := start(dir, cf)
	running := true
	defer func() {
		if running {
			n.stop()
		}
	}()
	name := st.m.name

	// the other metric has exactly what it had
	got, err := n.read(st.other.name, maxTime)
	if err != nil && len(st.obefore) > 0 {
		fail("query of %q: %v", st.other.name, err)
	}
	if d := diffValues(st.obefore, got); d != "" {
		fail("%q: %s", st.other.name, d)
	}

	// the metric has what it had, and perhaps the value in flight
	got, err = n.read(name, maxTime)
	if err != nil && len(st.before) > 0 {
		fail("query of %q: %v", name, err)
		return
	}
	have := got
	if len(got) > 0 && got[0].end == st.inflight.end {
		if !got[0].same(*st.inflight) {
			fail("%q has %v in place of %v in flight", name, got[0], st.inflight)
			return
		}
		c.Count("inflight_present", 1)
		got = got[1:]
	} else {
		c.Count("inflight_absent", 1)
	}
	if len(got) > len(st.before) {
		fail("%q has %d values, there were only %d", name, len(got), len(st.before))
		return
	}
	if d := diffValues(st.before[:len(got)], got); d != "" {
		fail("%q: %s", name, d)
		return
	}
	if len(got) < len(st.before) {
		if cf.Files == 0 {
			fail("%q lost %v", name, st.before[len(got)])
			return
		}
		// only what making room removes may be missing
		mm := *st.m
		mm.maxnr = max(mm.maxnr, was.slots(len(st.inflight.data)))
		mm.vals = append(append([]value(nil), st.m.vals...), *st.inflight)
		keep := mm.mustKeep(was)
		if first := len(st.m.vals) - len(got); first > keep && depth == 0 {
			fail("%q lost %v: %d are left", name, st.before[len(got)], len(got))
			return
		}
		c.Count("images_with_retired_values", 1)
	}

	// bounds inside of it
	for i := 0; i < 2 && len(have) > 0; i++ {
		bound := addSat(have[c.Intn(len(have))].end, int64(c.Intn(2)))
		part, err := n.read(name, bound)
		var want []value
		for _, v := range have {
			if v.end < bound {
				want = append(want, v)
			}
		}
		if d := diffValues(want, part); d != "" || err != nil {
			fail("%q before %d: %s, %v", name, bound, d, err)
			return
		}
	}

	// it accepts later values, and nothing else
	all := append([]value(nil), have...)
	next := st.inflight.end
	if len(all) > 0 {
		if a := n.put(name, all[0].end-1, all[0].end, c.Bytes(9)); a.ok {
			fail("then put of a value at the latest end of %q: %v", name, a)
			return
		}
		if all[0].end < next && c.P(1, 2) {
			next = all[0].end
		}
	} else if c.P(1, 2) {
		next = st.inflight.start
	}
	var acked *value
	for i := 0; i < 2; i++ {
		size := c.Range(0, cf.bytes())
		if i == 0 && c.P(1, 2) {
			size = c.Range(0, min(cf.bytes(), 2*cf.chunk()))
		}
		v := value{next, next + 1, c.Bytes(size)}
		next++
		nested := depth == 0 && i == 0 && c.P(1, 12)
		if nested {
			rec.snap("before")
			rec.on = true
		}
		pre := append([]value(nil), all...)
		a := n.put(name, v.start, v.end, v.data)
		rec.on = false
		if !a.ok || a.err != nil {
			fail("then put of %v to %q: %v", v, name, a)
			return
		}
		if nested {
			for j, im := range rec.images {
				mm := *st.m
				mm.vals = nil
				for k := len(pre) - 1; k >= 0; k-- {
					mm.vals = append(mm.vals, pre[k])
				}
				mm.maxnr = max(mm.maxnr, cf.slots(len(st.inflight.data)))
				for _, v := range mm.vals {
					mm.maxnr = max(mm.maxnr, cf.slots(len(v.data)))
				}
				// a crash in between leaves what it leaves: bound only what
				// the later crash may remove
				checkImage(c, rp, base, cf, crashState{m: &mm, inflight: &v, other: st.other, before: pre, obefore: st.obefore},
					im, fmt.Sprintf("%s, then put %d at %s", what, i, rec.points[j]), depth+1)
				c.Count("images:second_crash", 1)
				if c.Failed() {
					return
				}
			}
		}
		all = append([]value{v}, all...)
		acked = &v
	}

	for round := 0; round < 2; round++ {
		got, err = n.read(name, maxTime)
		if err != nil {
			fail("then query of %q: %v", name, err)
			return
		}
		if len(got) == 0 || len(got) > len(all) {
			fail("then %q has %d values, there were only %d", name, len(got), len(all))
			return
		}
		if d := diffValues(all[:len(got)], got); d != "" {
			fail("then %q: %s", name, d)
			return
		}
		for _, bound := range []int64{acked.end, acked.end - 1, got[len(got)/2].end} {
			part, err := n.read(name, bound)
			var want []value
			for _, v := range got {
				if v.end < bound {
					want = append(want, v)
				}
			}
			if d := diffValues(want, part); d != "" || err != nil {
				fail("then %q before %d: %s, %v", name, bound, d, err)
				return
			}
		}
		if got[0].end != acked.end {
			fail("then %q does not have %v", name, acked)
			return
		}
		if len(got) < len(all) && cf.Files == 0 {
			fail("then %q lost %v", name, all[len(got)])
			return
		}
		if cf.Files > 0 && len(got) < 2 && cf.slots(len(all[1].data)) <= cf.Files*(cf.Cap-cf.Cap+1) {
			fail("then %q lost %v", name, all[1])
			return
		}
		if round == 0 {
			n.stop()
			n = start(dir, cf)
		}
	}
	n.PopulateMetrics(nilctx)
	names, err := n.list()
	found := false
	for _, x := range names {
		if x == name {
			found = true
		} else if x != st.other.name {
			fail("then the listing has %q", x)
		}
	}
	if !found || err != nil {
		fail("then the listing %q (error %v) does not have %q", names, err, name)
	}
	n.stop()
	running = false
}

// crashKill kills a child process at a random time.
func crashKill(c *hk.C) {
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	cf := conf{Size: 100, Cap: c.Range(2, 6), Files: 0, Workers: 2, Handles: 2}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	metrics := 3
	acked := make([]int64, metrics)
	attempted := make([]int64, metrics)
	seed := c.U64()
	for round := 0; round < 3 && !c.Failed(); round++ {
		cmd := exec.Command(exe, "-prop", "kill-child")
		cmd.Env = append(os.Environ(),
			"KILL_DIR="+dir, "KILL_CAP="+strconv.Itoa(cf.Cap), "KILL_SEED="+strconv.FormatUint(seed, 10),
			fmt.Sprintf("KILL_FROM=%d,%d,%d", attempted[0], attempted[1], attempted[2]))
		cmd.Stderr = os.Stderr
		out, err := cmd.StdoutPipe()
		if err != nil {
			panic(err)
		}
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		timer := time.AfterFunc(time.Duration(20000+c.Range(0, 60000))*time.Microsecond, func() { cmd.Process.Kill() })
		data, _ := ioutil.ReadAll(out)
		cmd.Wait()
		timer.Stop()
		lines := strings.Split(string(data), "\n")
		for _, line := range lines[:len(lines)-1] {
			var kind string
			var m int
			var end int64
			fmt.Sscan(line, &kind, &m, &end)
			switch kind {
			case "try":
				attempted[m] = end
			case "ack":
				acked[m] = end
			case "bad":
				c.Failf("crash", "round %d: %s", round, line)
			}
		}
		c.Count("kills", 1)
		c.Sig(acked[0], acked[1], acked[2])

		n := start(dir, cf)
		for m := range acked {
			if attempted[m] == 0 {
				continue
			}
			got, err := n.read(fmt.Sprintf("m%d", m), maxTime)
			if err != nil && acked[m] > 0 {
				c.Failf("crash", "after kill %d: query: %v", round, err)
				break
			}
			have := map[int64]bool{}
			for i, v := range got {
				if i > 0 && v.end >= got[i-1].end {
					c.Failf("crash", "after kill %d: %v after %v", round, v, got[i-1])
				}
				if want := killValue(seed, m, v.end, cf); !v.same(want) || v.end > attempted[m]+1 {
					c.Failf("crash", "after kill %d: %v instead of %v", round, v, want)
				}
				have[v.end] = true
			}
			// the child acknowledges in order, and skips what it tried before
			// it was killed
			if acked[m] > 0 && !have[acked[m]] {
				c.Failf("crash", "after kill %d: metric %d lost the value acknowledged last, %d", round, m, acked[m])
			}
			ackmu.Lock()
			all := ackedSets[killKey{dir, m}]
			for _, line := range lines[:len(lines)-1] {
				var kind string
				var k int
				var end int64
				fmt.Sscan(line, &kind, &k, &end)
				if kind == "ack" && k == m {
					all = append(all, end)
				}
			}
			ackedSets[killKey{dir, m}] = all
			ackmu.Unlock()
			for _, end := range all {
				if !have[end] {
					c.Failf("crash", "after kill %d: metric %d lost the acknowledged value %d", round, m, end)
					break
				}
			}
			c.Count("values_after_kill", int64(len(got)))
			if len(got) > 0 {
				c.NonTrivial()
			}
		}
		n.stop()
	}
	ackmu.Lock()
	for m := range acked {
		delete(ackedSets, killKey{dir, m})
	}
	ackmu.Unlock()
}

type killKey struct {
	dir string
	m   int
}

var ackmu sync.Mutex
var ackedSets = map[killKey][]int64{}

func killValue(seed uint64, m int, end int64, cf conf) value {
	r := hk.NewRand(seed, uint64(m), uint64(end))
	return value{end - 1, end, r.Bytes(r.Range(0, 76*2))}
}

func killChild(*hk.Run) {
	cap, _ := strconv.Atoi(os.Getenv("KILL_CAP"))
	seed, _ := strconv.ParseUint(os.Getenv("KILL_SEED"), 10, 64)
	var from [3]int64
	fmt.Sscanf(os.Getenv("KILL_FROM"), "%d,%d,%d", &from[0], &from[1], &from[2])
	cf := conf{Size: 100, Cap: cap, Files: 0, Workers: 2, Handles: 2}
	n := start(os.Getenv("KILL_DIR"), cf)
	var mu sync.Mutex
	say := func(kind string, m int, end int64, extra interface{}) {
		mu.Lock()
		fmt.Printf("%s %d %d %v\n", kind, m, end, extra)
		mu.Unlock()
	}
	var wg sync.WaitGroup
	for m := range from {
		m := m
		wg.Add(1)
		go func() {
			defer wg.Done()
			// what was tried before the kill may be there
			for end := from[m] + 1; end < from[m]+100000; end++ {
				say("try", m, end, "")
				v := killValue(seed, m, end, cf)
				a := n.put(fmt.Sprintf("m%d", m), v.start, v.end, v.data)
				if !a.ok || a.err != nil {
					say("bad", m, end, a)
					return
				}
				say("ack", m, end, "")
			}
		}()
	}
	wg.Wait()
	select {}
}

// tornMetadata observes the one window that is known: the process dies while
// the copy of the metadata record is in progress.
func tornMetadata(c *hk.C) {
	base := c.R.TempDir()
	defer os.RemoveAll(base)
	dir := filepath.Join(base, "data")
	os.MkdirAll(dir, 0755)
	rec := &recorder{dir: dir}
	recorders.Store(dir, rec)
	defer recorders.Delete(dir)
	cf := conf{Size: 128, Cap: 5, Files: 0, Workers: 1, Handles: 2}
	n := start(dir, cf)
	n.put("m", 100, 200, c.Bytes(20))
	rec.on = true
	n.put("m", 200, 300+int64(c.Index), c.Bytes(20))
	rec.on = false
	n.stop()
	for i := range rec.images {
		if rec.points[i] != "metadata" || i == 0 {
			continue
		}
		im := image{}
		for name, data := range rec.images[i] {
			old := rec.images[i-1][name]
			if len(data) == len(old) && !bytes.Equal(data, old) {
				data = append(append([]byte(nil), data[:32]...), old[32:]...)
			}
			im[name] = data
		}
		d := filepath.Join(base, "image")
		writeImage(d, im)
		n := start(d, cf)
		got, err := n.read("m", maxTime)
		n.stop()
		c.Count("torn_metadata_images", 1)
		c.NonTrivial()
		c.Sig("metadata", c.Index)
		switch {
		case err != nil:
			c.R.Known("torn-metadata a process that dies in the middle of the copy of a metadata record leaves a data file whose checksum does not match, and the metric can not be read")
		case len(got) < 1 || len(got) > 2 || got[len(got)-1].end != 200:
			c.Failf("crash", "with torn metadata: %v", got)
		}
	}
}

package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io/ioutil"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/internal/zzverif/hk"
)

//
// C08
//

// place is where a value is stored.
type place struct {
	file   string
	off, n int // of its slots
}

// locate finds where the values are stored by searching for their content.
func locate(im image, prefix string, cf conf, vals []value) map[int64]place {
	out := map[int64]place{}
	for _, v := range vals {
		first := v.data
		if len(first) > cf.chunk() {
			first = first[:cf.chunk()]
		}
		if len(first) < 12 {
			continue
		}
		for name, data := range im {
			if !strings.HasPrefix(name, prefix+"/") || strings.Contains(name[len(prefix)+1:], "/") {
				continue
			}
			if i := bytes.Index(data, first); i >= header+cf.Size && (i-header)%cf.Size == 0 {
				out[v.end] = place{name, i - header, cf.slots(len(v.data)) * cf.Size}
			}
		}
	}
	return out
}

func damage(c *hk.C, cf conf, dir string, im image, name string) string {
	path := filepath.Join(dir, name)
	data := append([]byte(nil), im[name]...)
	slots := len(data) / cf.Size
	what := ""
	switch k := c.Intn(14); k {
	case 0, 1, 2: // some byte
		for i := c.Range(1, 3); i > 0; i-- {
			off := c.Intn(len(data))
			data[off] ^= byte(c.Range(1, 255))
			what += fmt.Sprintf("flip %d ", off)
		}
	case 3, 4: // the header of a record
		off := c.Intn(slots)*cf.Size + c.Intn(header)
		data[off] = byte(c.Pick(0, 1, 2, 3, 4, 5, 0xff, int(data[off])^1))
		what = fmt.Sprintf("header %d", off)
	case 5: // the metadata
		off := c.Intn(header + 24)
		data[off] ^= byte(c.Range(1, 255))
		what = fmt.Sprintf("metadata %d", off)
	case 6, 7: // shorter
		n := c.Pick(0, 1, header-1, header, header+1, cf.Size-1, cf.Size, cf.Size+1, 2*cf.Size, c.Intn(len(data)), c.Intn(slots)*cf.Size)
		data = data[:min(n, len(data))]
		what = fmt.Sprintf("truncate to %d", n)
	case 8: // longer
		extra := c.Bytes(c.Range(1, 3*cf.Size))
		if c.P(1, 2) {
			extra = make([]byte, len(extra))
		}
		data = append(data, extra...)
		what = fmt.Sprintf("extend by %d", len(extra))
	case 9: // gone
		os.Remove(path)
		return "remove " + name
	case 10: // replaced
		data = c.Bytes(c.Pick(0, 10, 30, cf.Size, len(data)))
		what = fmt.Sprintf("garbage %d", len(data))
	case 11:
		data = make([]byte, c.Pick(header, cf.Size, len(data)))
		what = fmt.Sprintf("zeros %d", len(data))
	case 12: // a range overwritten
		a := c.Intn(len(data))
		b := a + c.Intn(len(data)-a)
		if c.P(1, 2) {
			a, b = a/cf.Size*cf.Size, b/cf.Size*cf.Size
		}
		fill := byte(c.Pick(0, 0, 0xff, 1))
		for i := a; i < b; i++ {
			data[i] = fill
		}
		what = fmt.Sprintf("fill [%d,%d) with %d", a, b, fill)
	default: // the first byte of slots, which tells if there is a record
		s := c.Intn(slots) * cf.Size
		data[s] = byte(c.Pick(0, 1, 2, 0xff))
		what = fmt.Sprintf("first byte of slot at %d is %d", s, data[s])
	}
	if err := ioutil.WriteFile(path, data, 0644); err != nil {
		panic(err)
	}
	return what + " of " + name
}

func c08(r *hk.Run) {
	r.Rule("data files of stopped databases are damaged (bytes, headers, metadata, truncation, extension, removal, garbage, zeros, ranges), then queried with several bounds and written to; results are compared with what was stored, and values whose slots and metadata are untouched have to be there. non-trivial if the damage changed a data file; distinct by history and damage")
	files.Hook = crashHookHeld
	r.Cases("damage", r.N(4500, 80000), 8, func(c *hk.C) { damaged(c) })
	r.Require("damages", 2000)
	r.Require("queries_with_error", 100)
	r.Require("queries_without_error", 1000)
	r.Require("undamaged_values_required", 3000)
	r.Require("writes_after_damage_accepted", 300)
}

func damaged(c *hk.C) {
	cf := conf{
		Size: c.Pick(100, 100, 128, 200, 300), Cap: c.Pick(1, 2, 3, 4, 6, 10), Files: c.Pick(0, 0, 1, 2, 3),
		Handles: c.Pick(-1, 1, 2, 8), Workers: 1,
	}
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	n := start(dir, cf)
	base := int64(c.Pick(0, -20, 1000, 1<<40))
	end, oend := base, base
	var other []value
	stored := map[int64]value{}
	put := func(name string, end *int64) {
		v := value{*end, *end + int64(c.Range(1, 4)), c.Bytes(c.Range(12, max(12, min(cf.bytes(), 3*cf.chunk()))))}
		if c.P(1, 10) {
			v.data = c.Bytes(c.Range(0, 12))
		}
		if !cf.fits(len(v.data)) {
			v.data = v.data[:cf.bytes()]
		}
		if a := n.put(name, v.start, v.end, v.data); !a.ok {
			c.Failf("damage", "before any damage: put of %v to %s: %v", v, name, a)
		}
		*end = v.end
		if name == "m" {
			stored[v.end] = v
		} else {
			other = append([]value{v}, other...)
		}
	}
	for i := c.Range(1, 20); i > 0; i-- {
		if c.P(1, 5) {
			put("m.other", &oend)
		}
		put("m", &end)
	}
	put("m.other", &oend)
	before, err := n.read("m", maxTime)
	if err != nil {
		c.Failf("damage", "before any damage: %v", err)
	}
	other, _ = n.read("m.other", maxTime)
	n.stop()

	im := readImage(dir)
	places := locate(im, "m", cf, before)
	var names []string
	for name := range im {
		if filepath.Dir(name) == "m" && strings.HasSuffix(name, ".data") {
			names = append(names, name)
		}
	}
	sort.Strings(names)
	c.Logf("%+v, %d values in %v", cf, len(before), names)
	for i := c.Pick(1, 1, 1, 2, 3); i > 0; i-- {
		name := names[c.Intn(len(names))]
		if _, err := os.Stat(filepath.Join(dir, name)); err != nil {
			continue
		}
		what := damage(c, cf, dir, im, name)
		c.Logf("%s", what)
		c.Sig(what, len(before))
		c.Count("damages", 1)
	}
	if c.P(1, 5) {
		// no record of the newest files can be read, with or without metadata
		newest := append([]string(nil), names...)
		sort.Slice(newest, func(i, j int) bool {
			a, b := newest[i], newest[j]
			return len(a) > len(b) || len(a) == len(b) && a > b
		})
		one := c.P(1, 2)
		for i := c.Range(1, 4); i > 0 && len(newest) > 1; i-- {
			path := filepath.Join(dir, newest[0])
			data, err := ioutil.ReadFile(path)
			newest = newest[1:]
			if err != nil {
				continue
			}
			for s := cf.Size; s+header <= len(data); s += cf.Size {
				if data[s] == 0 {
					continue
				}
				if one {
					// only the newest one, which looks as if it was never there
					data[s] = 0
					break
				}
				data[s+c.Range(2, header)] ^= 0x10
			}
			if c.P(1, 4) && len(data) > 8 && !one {
				data[5] ^= 1
			}
			if err := ioutil.WriteFile(path, data, 0644); err != nil {
				panic(err)
			}
			c.Count("unreadable_newest", 1)
		}
		c.Logf("unreadable newest files, but %v", newest)
	}
	after := readImage(dir)
	if !sameImage(im, after) {
		c.NonTrivial()
	}

	// what has to be there if there is no error
	required := map[int64]bool{}
	for end, p := range places {
		was, is := im[p.file], after[p.file]
		if len(is) >= p.off+p.n && bytes.Equal(was[:cf.Size], is[:cf.Size]) && bytes.Equal(was[p.off:p.off+p.n], is[p.off:p.off+p.n]) {
			required[end] = true
		}
	}
	if h := c.Pick(-1, 1, 2, 8); true {
		cf.Handles = h
	}
	// the walk that a start causes has descriptors of its own
	w := &watcher{c: c, dir: dir, walked: make(chan bool, 1), every: 1 << 30}
	watchers.Store(dir, w)
	defer watchers.Delete(dir)
	n = start(dir, cf)
	select {
	case <-w.walked:
	case <-time.After(10 * time.Second):
		c.Failf("damage", "the walk did not finish: %v", n.PopulateMetrics(context.Background()))
	}
	handles := max(0, cf.Handles)
	leak := func(what string) {
		maps, fds := held(dir)
		if maps > handles || fds > 0 {
			c.Failf("damage", "%s: %d mappings and %d descriptors are held with %d handles", what, maps, fds, handles)
		}
	}
	check := func(bound int64) {
		got, err := n.read("m", bound)
		for i, v := range got {
			want, ok := stored[v.end]
			if !ok || !v.same(want) {
				c.Failf("damage", "query before %d returned %v, which was never stored (%v)", bound, v, want)
				return
			}
			if v.end >= bound {
				c.Failf("damage", "query before %d returned %v", bound, v)
			}
			if i > 0 && v.end >= got[i-1].end {
				c.Failf("damage", "query before %d returned %v after %v", bound, v, got[i-1])
				return
			}
		}
		if err != nil {
			c.Count("queries_with_error", 1)
		} else {
			c.Count("queries_without_error", 1)
			have := map[int64]bool{}
			for _, v := range got {
				have[v.end] = true
			}
			for end := range required {
				c.Count("undamaged_values_required", 1)
				if end < bound && !have[end] {
					c.Failf("damage", "query before %d reported no error, but did not return the undamaged %v", bound, stored[end])
					return
				}
			}
		}
		leak("after a query")
	}
	checkOther := func() {
		got, err := n.read("m.other", maxTime)
		if d := diffValues(other, got); d != "" || err != nil {
			c.Failf("damage", "another metric: %s, %v", d, err)
		}
	}
	bounds := []int64{maxTime, minTime, 0, end, end + 1, base}
	for i := 0; i < 3 && len(before) > 0; i++ {
		bounds = append(bounds, before[c.Intn(len(before))].end+int64(c.Intn(2)))
	}
	for _, bound := range bounds {
		check(bound)
	}
	s, e, d, err := n.QueryLatest(context.Background(), "m", nil)
	if err == nil && (s != 0 || e != 0 || d != nil) {
		if v := (value{s, e, d}); !v.same(stored[e]) {
			c.Failf("damage", "latest value is %v, which was never stored", v)
		}
	}
	checkOther()

	// writing goes on, or fails
	for i := c.Range(1, 6); i > 0 && !c.Failed(); i-- {
		v := value{end, end + 1, c.Bytes(c.Range(0, min(cf.bytes(), 3*cf.chunk())))}
		later := true
		if c.P(1, 4) && len(before) > 0 {
			// behind what was stored
			later = false
			w := before[c.Intn(len(before))]
			v.start, v.end = w.start, w.end
			if _, err := os.Stat(dir); c.P(1, 2) && err == nil {
				v.end--
			}
		} else {
			end++
		}
		old, had := stored[v.end]
		a := n.put("m", v.start, v.end, v.data)
		c.Logf("put %v: %v", v, a)
		if a.ok && a.err != nil {
			c.Failf("damage", "put after damage: %v", a)
		}
		if a.ok {
			if had {
				// it replaced one that is not there anymore
				delete(required, old.end)
			}
			stored[v.end] = v
			c.Count("writes_after_damage_accepted", 1)
			// making room may remove files
			required = map[int64]bool{}
		} else {
			c.Count("writes_after_damage_refused", 1)
			if later && a.err == nil {
				c.Failf("damage", "put after damage of %v, later than everything, was refused", v)
			}
		}
		leak("after a write")
		if !a.ok {
			continue
		}
		got, err := n.read("m", maxTime)
		if err == nil {
			if len(got) == 0 || !got[0].same(v) {
				c.Failf("damage", "put after damage of %v is not returned: %v", v, got)
			}
		}
		check(maxTime)
		check(v.end)
		check(v.end + 1)
	}
	checkOther()
	v := value{oend, oend + 1, c.Bytes(20)}
	if a := n.put("m.other", v.start, v.end, v.data); !a.ok {
		c.Failf("damage", "put to another metric: %v", a)
	}
	if err := n.PopulateMetrics(context.Background()); err != nil {
		c.Failf("damage", "walk: %v", err)
	}
	if names, err := n.list(); err != nil || !contains(names, "m.other") {
		c.Failf("damage", "listing %q, %v", names, err)
	}
	n.stop()
	handles = 0
	leak("after stopping")
	c.Sample(fmt.Sprintf("%+v: %d values, %d required after the damage", cf, len(before), len(required)))
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// held returns how many mappings of, and descriptors for files in the
// directory the process has.
func held(dir string) (maps, fds int) {
	data, err := ioutil.ReadFile("/proc/self/maps")
	if err != nil {
		panic(err)
	}
	for _, line := range strings.Split(string(data), "\n") {
		if strings.Contains(line, " "+dir+"/") {
			maps++
		}
	}
	dh, err := os.Open("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	names, _ := dh.Readdirnames(-1)
	dh.Close()
	for _, name := range names {
		target, err := os.Readlink("/proc/self/fd/" + name)
		if err == nil && (target == dir || strings.HasPrefix(target, dir+"/")) {
			fds++
		}
	}
	return maps, fds
}

//
// C11
//

func c11(r *hk.Run) {
	r.Rule("histories with rotation, refusals, errors, damaged files and restarts of the same database value, while /proc/self/maps and /proc/self/fd are watched at every hook point, inside of query callbacks, between operations, while operations run concurrently and after stopping; also on a file system of its own that becomes full, in a child process that has to survive, refuse with an error, keep what it stored and go on once there is room; distinct by history and the numbers observed")
	files.Hook = crashHookHeld
	r.Cases("serial", r.N(500, 8000), 6, func(c *hk.C) { handlesSerial(c) })
	r.Cases("concurrent", r.N(150, 3000), 2, func(c *hk.C) { handlesConcurrent(c) })
	r.Cases("full", r.N(60, 1000), 4, func(c *hk.C) { fullDisk(c) })
	r.Cases("many", r.N(1, 2), 1, func(c *hk.C) { manyFiles(c) })
	// the limits are those of the process
	signal.Ignore(syscall.SIGXFSZ)
	r.Cases("faults", r.N(250, 5000), 1, func(c *hk.C) { faults(c) })
	r.Require("observations", 10000)
	r.Require("observations_at_limit", 500)
	r.Require("stops", 500)
	r.Require("errors", 200)
	r.Require("errors_live", 50)
	for _, kind := range faultKinds {
		r.Require("faults:"+kind, 20)
	}
	r.Require("fault_errors", 200)
}

var faultKinds = []string{"descriptors", "file size", "directory", "data file", "root"}

// faults makes the system refuse to open, create or enlarge files for a while.
func faults(c *hk.C) {
	cf := conf{
		Size: c.Pick(100, 128, 256), Cap: c.Pick(1, 2, 3), Files: c.Pick(0, 1, 2),
		Handles: c.Pick(-1, 1, 2, 20), Workers: c.Pick(1, 1, 2),
	}
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	handles := max(0, cf.Handles)
	w := &watcher{c: c, dir: dir, every: 1 << 30, walked: make(chan bool, 1)}
	watchers.Store(dir, w)
	defer watchers.Delete(dir)
	rp := reporter{c, kinds("content", "phantom", "hole", "lost", "error", "order", "resurrect")}

	n := start(dir, cf)
	defer func() { n.stop() }()
	select {
	case <-w.walked:
	case <-time.After(10 * time.Second):
	}
	var metrics []*model
	for _, name := range []string{"a", "b", "a.b", "c.d.e"}[:c.Range(1, 4)] {
		metrics = append(metrics, &model{name: name, refused: map[int64]int{}})
	}
	length := func() int { return c.Pick(0, 1, cf.chunk(), cf.bytes(), c.Range(0, cf.bytes())) }
	now := int64(0)
	put := func(m *model, faulty bool) {
		v := value{now, now + 1, c.Bytes(length())}
		now++
		a := n.put(m.name, v.start, v.end, v.data)
		switch {
		case a.ok && a.err == nil:
			m.vals = append(m.vals, v)
			m.maxnr = max(m.maxnr, cf.slots(len(v.data)))
		case a.ok:
			c.Failf("fault", "put of %v to %q: %v", v, m.name, a)
		case faulty && a.err != nil:
			m.refused[v.end]++
			// room may have been made for it
			m.files0++
			m.maxnr = max(m.maxnr, cf.slots(len(v.data)))
			c.Count("fault_errors", 1)
		default:
			c.Failf("fault", "put of %v to %q, later than everything, was refused: %v", v, m.name, a)
		}
		c.Logf("put %q %v: %v", m.name, v, a)
	}
	read := func(m *model, faulty bool) {
		got, err := n.read(m.name, maxTime)
		if err != nil && faulty {
			c.Count("fault_errors", 1)
			for i, v := range got {
				if j, ok := m.find(v.end); !ok || !v.same(m.vals[j]) || i > 0 && got[i-1].end <= v.end {
					c.Failf("fault", "query of %q returned %v", m.name, v)
				}
			}
			return
		}
		if err == nil && len(got) == 0 && len(m.vals) == 0 {
			return
		}
		m.checkFull(rp, cf, got, err)
	}
	some := func() *model { return metrics[c.Intn(len(metrics))] }
	listed := func(when string) {
		names, err := n.list()
		if err != nil {
			c.Failf("fault", "%s: listing: %v", when, err)
		}
		for _, m := range metrics {
			if len(m.vals) > 0 && !contains(names, m.name) {
				c.Failf("fault", "%s: the listing %q does not have %q", when, names, m.name)
			}
		}
	}

	for i := c.Range(0, 12); i > 0; i-- {
		put(some(), false)
	}
	for round := c.Range(2, 6); round > 0 && !c.Failed(); round-- {
		kind := faultKinds[c.Intn(len(faultKinds))]
		var undo func()
		switch kind {
		case "descriptors":
			undo = limit(syscall.RLIMIT_NOFILE, freeDescriptors(c.Pick(0, 0, 1, 1, 2)))
		case "file size":
			undo = limit(syscall.RLIMIT_FSIZE, uint64(c.Pick(0, 1, cf.Size, cf.Size*cf.Cap)))
		case "directory":
			undo = forbid(filepath.Join(dir, strings.Replace(some().name, ".", "/", -1)), c.Pick(0, 0500, 0300, 0600))
		case "data file":
			var paths []string
			for f := range readImage(dir) {
				if strings.HasSuffix(f, ".data") {
					paths = append(paths, filepath.Join(dir, f))
				}
			}
			if len(paths) == 0 {
				continue
			}
			sort.Strings(paths)
			undo = forbid(paths[c.Intn(len(paths))], c.Pick(0, 0400, 0200))
		case "root":
			undo = forbid(dir, c.Pick(0, 0500, 0300))
		}
		c.Logf("fault: %s", kind)
		for i := c.Range(1, 12); i > 0; i-- {
			switch c.Intn(8) {
			case 0, 1, 2, 3:
				put(some(), true)
			case 4, 5:
				read(some(), true)
			case 6:
				n.QueryLatest(context.Background(), some().name, nil)
			case 7:
				if err := n.PopulateMetrics(context.Background()); err != nil {
					c.Count("fault_errors", 1)
					listed("after a walk failed")
				}
			}
		}
		undo()
		c.Count("faults:"+kind, 1)
		c.Sig(kind, cf, now)
		w.see("after the fault "+kind, handles, 0)
		for f := range readImage(dir) {
			if !strings.HasSuffix(f, ".data") && !strings.HasSuffix(f, "/") {
				c.Failf("fault", "after the fault %s there is the file %q", kind, f)
			}
		}
		for _, m := range metrics {
			read(m, false)
		}
		if err := n.PopulateMetrics(context.Background()); err != nil {
			c.Failf("fault", "walk after the fault %s: %v", kind, err)
		}
		listed("after the fault " + kind)
		for i := c.Range(0, 6); i > 0; i-- {
			m := some()
			put(m, false)
			read(m, false)
		}
		if c.P(1, 4) {
			n.stop()
			w.see("after stopping", 0, 0)
			select {
			case <-w.walked:
			default:
			}
			n = start(dir, cf)
			select {
			case <-w.walked:
			case <-time.After(10 * time.Second):
			}
			for _, m := range metrics {
				read(m, false)
			}
		}
	}
	n.stop()
	w.see("after stopping", 0, 0)
	n = start(dir, cf)
	c.NonTrivial()
	c.Sample(fmt.Sprintf("%+v: %d values", cf, now))
}

// freeDescriptors returns a limit below which n descriptors are free.
func freeDescriptors(n int) uint64 {
	dh, err := os.Open("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	own := int(dh.Fd())
	names, _ := dh.Readdirnames(-1)
	dh.Close()
	used := map[int]bool{}
	for _, name := range names {
		if fd, err := strconv.Atoi(name); err == nil && fd != own {
			used[fd] = true
		}
	}
	limit := 0
	for ; n > 0 || used[limit]; limit++ {
		if !used[limit] {
			n--
		}
	}
	return uint64(limit)
}

// limit lowers a limit of the process until the returned function is called.
func limit(what int, to uint64) func() {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(what, &old); err != nil {
		panic(err)
	}
	if err := syscall.Setrlimit(what, &syscall.Rlimit{Cur: to, Max: old.Max}); err != nil {
		panic(err)
	}
	return func() {
		if err := syscall.Setrlimit(what, &old); err != nil {
			panic(err)
		}
	}
}

// forbid changes the permissions of a file until the returned function is
// called, if it is there.
func forbid(path string, mode int) func() {
	fi, err := os.Stat(path)
	if err != nil || os.Chmod(path, os.FileMode(mode)) != nil {
		return func() {}
	}
	return func() { os.Chmod(path, fi.Mode().Perm()) }
}

type watcher struct {
	c     *hk.C
	dir   string
	limit int64 // mappings
	every int
	calls int

	walked chan bool
}

var watchers sync.Map

func crashHookHeld(point, name string) {
	watchers.Range(func(k, v interface{}) bool {
		w := v.(*watcher)
		if point == "walked" && name == w.dir {
			select {
			case w.walked <- true:
			default:
			}
		}
		if strings.HasPrefix(name, w.dir+"/") {
			w.calls++
			if w.calls%w.every == 0 {
				w.see("at "+point, int(atomic.LoadInt64(&w.limit)), 2)
			}
		}
		return true
	})
}

func (w *watcher) see(what string, maxmaps, maxfds int) {
	maps, fds := held(w.dir)
	w.c.Count("observations", 1)
	w.c.R.Max("max_mappings", int64(maps))
	if maps >= maxmaps-2 {
		w.c.Count("observations_at_limit", 1)
	}
	if maps > maxmaps || fds > maxfds {
		w.c.Failf("handles", "%s: %d mappings (at most %d) and %d descriptors (at most %d) are held", what, maps, maxmaps, fds, maxfds)
	}
}

func handlesSerial(c *hk.C) {
	cf := conf{
		Size: c.Pick(100, 128, 256), Cap: c.Pick(1, 2, 3, 5), Files: c.Pick(0, 1, 2, 3),
		Handles: c.Pick(-1, 1, 2, 3, 5, 20), Workers: 1,
	}
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	handles := max(0, cf.Handles)
	w := &watcher{c: c, dir: dir, limit: int64(handles + 2), every: c.Range(1, 5), walked: make(chan bool, 1)}
	watchers.Store(dir, w)
	defer watchers.Delete(dir)

	db := files.New(dir, cf.options())
	var n *node
	run := func() {
		ctx, cancel := context.WithCancel(context.Background())
		n = &node{DB: db, dir: dir, cf: cf, cancel: cancel, done: make(chan error, 1)}
		done := n.done
		select {
		case <-w.walked:
		default:
		}
		go func() { done <- db.Run(ctx) }()
		// the walk that a start causes has descriptors of its own
		select {
		case <-w.walked:
		case <-time.After(10 * time.Second):
			c.Count("walks_failed", 1)
		}
	}
	stop := func() {
		if err := n.stop(); err != nil {
			c.Failf("error", "stop: %v", err)
		}
		w.see("after stopping", 0, 0)
		c.Count("stops", 1)
	}
	run()
	metrics := c.Range(1, 6)
	ends := make([]int64, metrics)
	name := func(m int) string { return []string{"a", "b", "a.b", "c.d", "c.e", "f.g.h"}[m] }
	for i, k := 0, c.Range(30, 120); i < k && !c.Failed(); i++ {
		m := c.Intn(metrics)
		switch x := c.Intn(20); {
		case x < 9:
			ends[m] += int64(c.Range(0, 2))
			a := n.put(name(m), ends[m]-1, ends[m], c.Bytes(c.Range(0, cf.bytes())))
			c.Logf("put %s %d: %v", name(m), ends[m], a)
		case x < 10:
			a := n.put(name(m), ends[m], ends[m]+1, c.Bytes(cf.bytes()+1))
			c.Logf("oversized put %s: %v", name(m), a)
			if a.err != nil {
				c.Count("errors", 1)
			}
		case x < 11:
			a := n.put(strings.Repeat("y", 300), 1, 2, []byte("x"))
			if a.err != nil {
				c.Count("errors", 1)
			}
		case x < 15:
			count := 0
			n.Query(context.Background(), name(m), maxTime, nil, func(context.Context, int64, int64, []byte) (bool, error) {
				count++
				if count%4 == 1 {
					w.see("inside of a query", handles+1, 1)
				}
				return count < 9, nil
			})
		case x < 16:
			n.Query(context.Background(), name(m), ends[m], nil, func(context.Context, int64, int64, []byte) (bool, error) {
				return false, errors.New("boom")
			})
		case x < 17:
			n.QueryLatest(context.Background(), name(m), nil)
		case x < 18:
			n.PopulateMetrics(context.Background())
			n.list()
		case x < 19 && c.P(2, 3):
			n.read("missing", maxTime)
		case x < 19:
			// the metadata of a file breaks while it may be open
			var paths []string
			for f := range readImage(dir) {
				if strings.HasSuffix(f, ".data") {
					paths = append(paths, filepath.Join(dir, f))
				}
			}
			if len(paths) == 0 {
				break
			}
			sort.Strings(paths)
			fh, err := os.OpenFile(paths[c.Intn(len(paths))], os.O_RDWR, 0)
			if err != nil {
				break
			}
			b := make([]byte, 1)
			off := int64(c.Intn(22))
			if _, err := fh.ReadAt(b, off); err != nil {
				fh.Close()
				break
			}
			flip := byte(c.Range(1, 255))
			fh.WriteAt([]byte{b[0] ^ flip}, off)
			path := fh.Name()
			fh.Close()
			for k := c.Range(1, 6); k > 0; k-- {
				m := c.Intn(metrics)
				if a := n.put(name(m), ends[m], ends[m]+1, []byte("x")); a.err != nil {
					c.Count("errors_live", 1)
				} else {
					ends[m]++
				}
				if c.P(1, 2) {
					n.read(name(m), maxTime)
					n.QueryLatest(context.Background(), name(m), nil)
				}
			}
			if c.P(2, 3) {
				if fh, err := os.OpenFile(path, os.O_RDWR, 0); err == nil {
					fh.WriteAt(b, off)
					fh.Close()
				}
			}
		default:
			stop()
			if c.P(1, 2) {
				// damage something, so that operations fail
				im := readImage(dir)
				var names []string
				for f := range im {
					if strings.HasSuffix(f, ".data") && len(im[f]) >= 2*cf.Size {
						names = append(names, f)
					}
				}
				sort.Strings(names)
				if len(names) > 0 {
					c.Logf("%s", damage(c, cf, dir, im, names[c.Intn(len(names))]))
				}
				for m := 0; m < metrics; m++ {
					if _, err := func() ([]value, error) { run(); v, err := n.read(name(m), maxTime); stop(); return v, err }(); err != nil {
						c.Count("errors", 1)
					}
				}
			}
			run()
		}
		w.see("between operations", handles, 0)
		c.Sig(i, m, ends[m])
	}
	stop()
	for i := c.Range(0, 3); i > 0; i-- {
		run()
		n.put(name(0), ends[0]+int64(10-i), ends[0]+int64(11-i), []byte("x"))
		stop()
	}
	c.NonTrivial()
	c.Sample(fmt.Sprintf("%+v: %d metrics", cf, metrics))
}

func handlesConcurrent(c *hk.C) {
	cf := conf{
		Size: c.Pick(100, 128), Cap: c.Pick(1, 2, 3), Files: c.Pick(0, 1, 2),
		Handles: c.Pick(-1, 1, 3, 10), Workers: c.Range(1, 4), Buffer: 2,
	}
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	readers := c.Range(1, 4)
	w := &watcher{c: c, dir: dir, every: 7}
	handles := max(0, cf.Handles)
	limit := handles + 2*(cf.Workers+readers)
	db := files.New(dir, cf.options())
	for round := c.Range(1, 3); round > 0; round-- {
		ctx, cancel := context.WithCancel(context.Background())
		done := make(chan error, 1)
		go func() { done <- db.Run(ctx) }()
		n := &node{DB: db}
		var wg sync.WaitGroup
		for i := 0; i < readers; i++ {
			rnd := hk.NewRand(c.U64())
			wg.Add(2)
			go func() {
				defer wg.Done()
				for k := 0; k < 40; k++ {
					n.read(fmt.Sprintf("m%d", rnd.Intn(6)), maxTime)
				}
			}()
			rnd2 := hk.NewRand(c.U64())
			go func() {
				defer wg.Done()
				for k := 0; k < 40; k++ {
					t := time.Now().UnixNano()
					n.put(fmt.Sprintf("m%d", rnd2.Intn(6)), t-1, t, rnd2.Bytes(rnd2.Range(0, cf.bytes()+5)))
				}
			}()
		}
		quit := make(chan struct{})
		seen := make(chan struct{})
		go func() {
			defer close(seen)
			for {
				select {
				case <-quit:
					return
				default:
					w.see("during concurrent operations", limit, 2*(cf.Workers+readers)+8)
				}
			}
		}()
		wg.Wait()
		close(quit)
		<-seen
		w.see("after concurrent operations", handles, 8)
		cancel()
		if err := <-done; err != nil {
			c.Failf("error", "stop: %v", err)
		}
		w.see("after stopping", 0, 0)
		c.Count("stops", 1)
	}
	c.Sig(cf, readers)
	c.NonTrivial()
}

//
// C10
//

func c10(r *hk.Run) {
	r.Rule("sets of adversarial names (every string up to length 4 over dot, slash, percent, 2, e and a letter; random longer ones with null bytes, control and invalid bytes, long components) each get values tagged with their name; every name has to return exactly its own, before and after a restart, and be listed unchanged; directories around the data directory are compared. distinct by the set of names")
	r.Cases("exhaustive", r.N(4, 8), 8, func(c *hk.C) {
		alphabet := []string{"./%2ea", ".%25/1", "./d2ft", ".a%e2f", "./%2ea", ".%2eA5", "./.a\n%", "\xff.%/2e"}[c.Index%8]
		var names []string
		var gen func(prefix string, n int)
		gen = func(prefix string, n int) {
			names = append(names, prefix)
			if n > 0 {
				for i := range alphabet {
					gen(prefix+alphabet[i:i+1], n-1)
				}
			}
		}
		depth := 4
		if !r.Thorough() && c.Index > 0 {
			depth = 3
		}
		gen("", depth)
		isolate(c, names)
	})
	r.Cases("bytes", r.N(8, 80), 8, func(c *hk.C) {
		// every byte alone, between and next to others
		var names []string
		set := map[string]bool{}
		for i := 0; i < 256; i++ {
			b := string([]byte{byte(i)})
			for _, name := range []string{b, "a" + b, b + "a", "a" + b + "b", "a." + b, b + b}[c.Index%6:][:1] {
				set[name] = true
			}
		}
		for i := 0; i < 120; i++ {
			set[string(c.Bytes(2))] = true
		}
		for name := range set {
			names = append(names, name)
		}
		sort.Strings(names)
		isolate(c, names)
	})
	r.Cases("random", r.N(220, 5000), 8, func(c *hk.C) {
		special := []string{"", ".", "..", "...", "....", "a.", ".a", "a..b", "a/b", "/", "//", "/a", "a/", "../x", "../../x", "a/../b",
			"%2e", "%2f", "%25", "%", "%2", "%2e%2e", "a.%2e", "\x00", "a\x00b", "1.data", "a.1.data", "data", ".data", "a.data", "1", "1.data.tmp",
			"A", "a", "a b", "é", "\xff\xfe", "\n", "a\nb", "-", "~", "..%2f", "%2f..", "./a", "a./", "a/.", "a%00b", "con", "*", "?", "a\\b", "lost+found",
			strings.Repeat("n", 255), strings.Repeat("n", 256), strings.Repeat("n", 400), strings.Repeat("/", 85), strings.Repeat("/", 86),
			strings.Repeat("a.", 300) + "a", strings.Repeat(strings.Repeat("k", 200)+".", 25),
			strings.Repeat(strings.Repeat("q", 99)+".", 6) + "q", strings.Repeat(strings.Repeat("q", 99)+".", 6) + "p", strings.Repeat("q.", c.Range(500, 900)) + "z"}
		set := map[string]bool{}
		for i := c.Range(5, 40); i > 0; i-- {
			set[c.PickS(special...)] = true
		}
		for i := c.Range(5, 60); i > 0; i-- {
			b := make([]byte, c.Range(0, 9))
			for j := range b {
				b[j] = "../%%2e5fa1.\n\xff\x01A"[c.Intn(16)]
			}
			set[string(b)] = true
		}
		// names that only differ in one byte from others
		for name := range set {
			if len(set) > 130 {
				break
			}
			if name != "" && c.P(1, 6) {
				b := []byte(name)
				b[len(b)-1] ^= 0x20
				set[string(b)] = true
			}
		}
		var names []string
		for name := range set {
			names = append(names, name)
		}
		sort.Strings(names)
		isolate(c, names)
	})
	r.Require("names", 2000)
	r.Require("names_refused", 20)
}

func isolate(c *hk.C, names []string) {
	base := c.R.TempDir()
	defer os.RemoveAll(base)
	// a deep nest, so that everything that climbs out still stays inside
	nest := base
	for i := 0; i < 14; i++ {
		nest = filepath.Join(nest, fmt.Sprintf("n%d", i))
		if err := os.MkdirAll(nest, 0755); err != nil {
			panic(err)
		}
		ioutil.WriteFile(filepath.Join(nest, "sentinel"), []byte(nest), 0644)
		ioutil.WriteFile(filepath.Join(nest, "1.data"), []byte(nest), 0644)
	}
	dir := filepath.Join(nest, "data")
	outside := func() map[string]string {
		out := treeHash(base)
		rel, _ := filepath.Rel(base, dir)
		for k := range out {
			if k == rel || strings.HasPrefix(k, rel+"/") {
				delete(out, k)
			}
		}
		return out
	}
	before := outside()

	cf := conf{Size: 512, Cap: 3, Files: 1, Buffer: 10, Handles: c.Pick(1, 16), Workers: c.Range(1, 3)}
	n := start(dir, cf)
	stored := map[string][]value{}
	tag := func(name string, end int64) value {
		data := append([]byte(nil), name...)
		if len(data) > 300 {
			data = append(data[:280:280], fmt.Sprint(len(name))...)
		}
		return value{end - 1, end, append(data, fmt.Sprintf("|%d", end)...)}
	}
	write := func(name string, end int64) {
		v := tag(name, end)
		a := n.put(name, v.start, v.end, v.data)
		if a.ok {
			stored[name] = append([]value{v}, stored[name]...)
			return
		}
		c.Count("names_refused", 1)
		easy := !strings.Contains(name, "\x00") && 3*len(name)+len(dir)+50 < 4000
		for _, part := range strings.Split(name, ".") {
			easy = easy && len(part) <= 80
		}
		easy = easy && (len(name) <= 80 || !strings.Contains(name, ".."))
		if easy || a.err == nil {
			c.Failf("names", "put to %q: %v", name, a)
		}
	}
	for _, i := range c.Perm(len(names)) {
		write(names[i], 1)
	}
	for i := 0; i < len(names)/4; i++ {
		name := names[c.Intn(len(names))]
		write(name, int64(2+i))
	}
	verify := func(when string) {
		for _, name := range names {
			got, err := n.read(name, maxTime)
			if err != nil && len(stored[name]) > 0 {
				c.Failf("names", "%s: query of %q: %v", when, name, err)
				return
			}
			want := stored[name]
			if len(got) < len(want) && len(got) >= 3 {
				want = want[:len(got)]
			}
			if d := diffValues(want, got); d != "" {
				c.Failf("names", "%s: %q: %s", when, name, d)
				return
			}
		}
		if err := n.PopulateMetrics(context.Background()); err != nil {
			c.Failf("names", "%s: walk: %v", when, err)
		}
		list, err := n.list()
		var want []string
		for name := range stored {
			want = append(want, name)
		}
		sort.Strings(want)
		// those that were refused may be listed, but no other names
		var have []string
		for _, name := range list {
			if _, ok := stored[name]; ok || !contains(names, name) {
				have = append(have, name)
			}
		}
		if err != nil || strings.Join(have, "\x01") != strings.Join(want, "\x01") {
			c.Failf("names", "%s: the listing has %q, not %q (%v)", when, have, want, err)
		}
	}
	verify("before the restart")
	n.stop()
	n = start(dir, cf)
	verify("after the restart")
	n.stop()
	if d := treeDiff(before, outside()); d != "" {
		c.Failf("names", "outside of the data directory: %s", d)
	}
	c.Count("names", int64(len(stored)))
	c.Sig(names)
	c.NonTrivial()
	if len(names) < 100 {
		c.Sample(fmt.Sprintf("%q", names))
	}
}

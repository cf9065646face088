// Monitors of the files database: they drive it through its exported api and
// compare everything it answers with a reference model.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/internal/zzverif/hk"
)

const (
	minTime = math.MinInt64
	maxTime = math.MaxInt64
)

// header is the size of the header of a stored record. it is documented by
// the file format, and determines what fits into a data file.
const header = 24

// conf is a database configuration.
type conf struct {
	Size, Cap, Files, Buffer, Handles, Workers int
	Drop                                       bool
}

func (cf conf) options() files.Options {
	return files.Options{
		Size: cf.Size, Cap: cf.Cap, Files: cf.Files,
		Tuning: files.Tuning{
			Buffer: cf.Buffer, Drop: cf.Drop,
			Handles: cf.Handles, Workers: cf.Workers,
		},
	}
}

func (cf conf) chunk() int { return cf.Size - header }

// slots returns how many records a value of the length needs.
func (cf conf) slots(n int) int {
	if n == 0 {
		return 1
	}
	return (n + cf.chunk() - 1) / cf.chunk()
}

func (cf conf) fits(n int) bool { return cf.slots(n) <= cf.Cap }

// bytes returns the most that fits into an empty file.
func (cf conf) bytes() int { return cf.chunk() * cf.Cap }

func randConf(r *hk.Rand) conf {
	cf := conf{
		Size:    r.Pick(100, 100, 128, 129, 200, 256, 300, 512, 1024, 4096),
		Cap:     r.Pick(1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 10, 12),
		Files:   r.Pick(0, 1, 1, 2, 2, 3, 4),
		Buffer:  r.Pick(0, 1, 10),
		Handles: r.Pick(-1, 1, 1, 2, 3, 64),
		Workers: r.Pick(1, 1, 2),
	}
	if r.P(1, 40) {
		cf.Size = 65559
		cf.Cap = r.Range(1, 3)
	}
	return cf
}

// node is a running database.
type node struct {
	*files.DB
	dir    string
	cf     conf
	cancel func()
	done   chan error
}

func start(dir string, cf conf) *node {
	ctx, cancel := context.WithCancel(context.Background())
	n := &node{
		DB: files.New(dir, cf.options()), dir: dir, cf: cf,
		cancel: cancel, done: make(chan error, 1),
	}
	go func() { n.done <- n.DB.Run(ctx) }()
	return n
}

func (n *node) stop() error {
	n.cancel()
	return <-n.done
}

type answer struct {
	ok  bool
	err error
}

// put queues the value and waits for it to be answered.
func (n *node) put(metric string, start, end int64, data []byte) answer {
	ch := make(chan answer, 8)
	n.Queue(context.Background(), metric, start, end, data,
		func(ok bool, err error) { ch <- answer{ok, err} })
	a := <-ch
	hk.Progress()
	return a
}

// value is something stored.
type value struct {
	start, end int64
	data       []byte
}

func (v value) String() string {
	h := fnv.New32a()
	h.Write(v.data)
	return fmt.Sprintf("[%d,%d] %d bytes #%08x", v.start, v.end, len(v.data), h.Sum32())
}

func (v value) same(o value) bool {
	return v.start == o.start && v.end == o.end && bytes.Equal(v.data, o.data)
}

type querier interface {
	Query(ctx context.Context, metric string, end int64, buf []byte,
		cb func(ctx context.Context, start, end int64, data []byte) (bool, error)) error
}

// read collects the values before the bound.
func (n *node) read(metric string, bound int64) (out []value, err error) {
	err = n.Query(context.Background(), metric, bound, nil,
		func(_ context.Context, start, end int64, data []byte) (bool, error) {
			out = append(out, value{start, end, append([]byte(nil), data...)})
			if len(out) > 1<<20 {
				return false, errors.New("endless results")
			}
			return true, nil
		})
	hk.Progress()
	return out, err
}

// list collects the names.
func (n *node) list() (out []string, err error) {
	err = n.Metrics(context.Background(), func(name string) (bool, error) {
		out = append(out, name)
		return true, nil
	})
	return out, err
}

// treeHash summarizes everything in the directory.
func treeHash(dir string) map[string]string {
	out := make(map[string]string)
	filepath.Walk(dir, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, path)
		if fi.IsDir() {
			out[rel] = "dir"
			return nil
		}
		data, _ := ioutil.ReadFile(path)
		h := fnv.New64a()
		h.Write(data)
		out[rel] = fmt.Sprintf("%d bytes #%016x", len(data), h.Sum64())
		return nil
	})
	return out
}

func treeDiff(a, b map[string]string) string {
	var out []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			out = append(out, "removed "+k)
		} else if v != w {
			out = append(out, fmt.Sprintf("changed %s from %s to %s", k, v, w))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, "created "+k)
		}
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

// model is what we know to be stored for one metric.
type model struct {
	name    string
	vals    []value       // accepted, oldest first
	refused map[int64]int // ends of refused values
	lo      int           // everything before this index is known to be removed
	hidden  int           // accepted values with an end no query bound is after

	epoch  int // index of the first value accepted with the current settings
	maxnr  int // most slots a value needed with the current settings
	files0 int // data files there were when the settings changed
	free   bool
}

func (m *model) latest() (int64, bool) {
	if len(m.vals) == 0 {
		return 0, false
	}
	return m.vals[len(m.vals)-1].end, true
}

func (m *model) find(end int64) (int, bool) {
	i := sort.Search(len(m.vals), func(i int) bool { return m.vals[i].end >= end })
	return i, i < len(m.vals) && m.vals[i].end == end
}

// mustKeep returns the smallest index that retention may not have removed.
func (m *model) mustKeep(cf conf) int {
	if cf.Files == 0 {
		return m.lo
	}
	n := len(m.vals)
	// as long as there are not more files than allowed, nothing is removed
	if m.files0+(n-m.epoch) <= cf.Files+1 {
		return m.lo
	}
	// every historical file is so full that the next value did not fit
	slots := cf.Files * (cf.Cap - m.maxnr + 1)
	i := n
	for i > m.epoch {
		nr := cf.slots(len(m.vals[i-1].data))
		if slots < nr {
			break
		}
		slots -= nr
		i--
	}
	if i < m.lo {
		i = m.lo
	}
	return i
}

// reporter fails the case for the kinds of violations the property is about.
type reporter struct {
	*hk.C
	kinds map[string]bool
}

func (r reporter) fail(kind, format string, args ...interface{}) {
	if r.kinds[kind] {
		r.Failf(kind, format, args...)
	} else {
		r.Count("elsewhere:"+kind, 1)
	}
}

// checkFull compares what a query with the largest bound returns with the
// model, and returns the values it had.
func (m *model) checkFull(r reporter, cf conf, got []value, err error) {
	if err != nil {
		if len(m.vals) == 0 && errors.Is(unwrap(err), os.ErrNotExist) {
			return
		}
		r.fail("error", "query of %q with %d values stored: %v", m.name, len(m.vals), err)
		return
	}

	seen := make(map[int]bool)
	low := len(m.vals)
	for i, v := range got {
		if i > 0 && v.end >= got[i-1].end {
			r.fail("order", "query of %q returned %v after %v", m.name, v, got[i-1])
		}
		j, ok := m.find(v.end)
		if !ok {
			if _, ok := m.refused[v.end]; ok {
				r.fail("phantom", "query of %q returned %v that was reported as not written", m.name, v)
			} else {
				r.fail("phantom", "query of %q returned %v that was never written", m.name, v)
			}
			continue
		}
		if seen[j] {
			r.fail("order", "query of %q returned %v twice", m.name, v)
		}
		seen[j] = true
		if !v.same(m.vals[j]) {
			r.fail("content", "query of %q returned %v instead of %v", m.name, v, m.vals[j])
		}
		if j < m.lo {
			r.fail("resurrect", "query of %q returned %v again, that an earlier query did not have", m.name, v)
		}
		if j < low {
			low = j
		}
	}

	// it must be a contiguous run of the newest.
	top := len(m.vals) - m.hidden
	for j := low; j < top; j++ {
		if !seen[j] {
			r.fail("hole", "query of %q returned %v but not the newer %v", m.name, m.vals[low], m.vals[j])
			break
		}
	}
	if low > top {
		low = top
	}
	if keep := m.mustKeep(cf); low > keep && keep < top {
		r.fail("lost", "query of %q lost %v, %d of %d values are left, at least %d must be",
			m.name, m.vals[keep], len(got), len(m.vals), top-keep)
	}
	if low > m.lo {
		r.Count("values_retired", int64(low-m.lo))
		m.lo = low
	}
	r.Count("values_compared", int64(len(got)))
}

// unwrap gets to the innermost error.
func unwrap(err error) error {
	for err != nil {
		var next error
		switch e := err.(type) {
		case interface{ Unwrap() error }:
			next = e.Unwrap()
		case interface{ Cause() error }:
			next = e.Cause()
		}
		if next == nil {
			return err
		}
		err = next
	}
	return err
}

// dataFiles returns the number of files and largest file per directory.
func dataFiles(dir string) (count map[string]int, largest map[string]int64, names map[string]string) {
	count, largest, names = map[string]int{}, map[string]int64{}, map[string]string{}
	filepath.Walk(dir, func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		d, _ := filepath.Rel(dir, filepath.Dir(path))
		count[d]++
		names[d] += "/" + fi.Name()
		if fi.Size() > largest[d] {
			largest[d] = fi.Size()
		}
		return nil
	})
	return
}

// renumber moves the data files of a stopped metric to higher numbers, as if
// there had been many more of them before. It leaves other files alone, and
// everything if they aren't numbered the way it knows.
func renumber(dir string, offset int) bool {
	dh, err := os.Open(dir)
	if err != nil {
		return false
	}
	names, err := dh.Readdirnames(-1)
	dh.Close()
	if err != nil {
		return false
	}
	var nums []int
	for _, name := range names {
		if !strings.HasSuffix(name, ".data") {
			continue
		}
		n, err := strconv.Atoi(strings.TrimSuffix(name, ".data"))
		if err != nil || n < 1 || fmt.Sprintf("%d.data", n) != name {
			return false
		}
		nums = append(nums, n)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(nums)))
	for i, n := range nums {
		if i > 0 && n != nums[i-1]-1 || n > 1<<40 {
			return false
		}
	}
	for _, n := range nums {
		from := filepath.Join(dir, fmt.Sprintf("%d.data", n))
		to := filepath.Join(dir, fmt.Sprintf("%d.data", n+offset))
		if err := os.Rename(from, to); err != nil {
			panic("harness: " + err.Error())
		}
	}
	return len(nums) > 0
}

func addSat(a, b int64) int64 {
	if b > 0 && a > maxTime-b {
		return maxTime
	}
	if b < 0 && a < minTime-b {
		return minTime
	}
	return a + b
}

var nilctx = context.Background()

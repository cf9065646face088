package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/vivint/rothko/config"
	"github.com/vivint/rothko/data/load"
	_ "github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/internal/zzverif/hk"
	_ "github.com/vivint/rothko/listener/graphite"
	"github.com/vivint/rothko/registry"
)

func c31(r *hk.Run) {
	r.Rule("the init command runs in directories in which the configuration exists already in some form or not, alone or several at once, and what it leaves is compared with what was there; the demo command runs with generated configurations and its records are read back, also through a server that is started afterwards; both also on a disk that is full. non-trivial if something was written; distinct by what was there and the configuration")
	r.Cases("init", r.N(60, 800), 8, initCase)
	r.Cases("demo", r.N(16, 200), 6, demoCase)
	r.Cases("demo fails", r.N(12, 100), 4, demoFails)
	r.Cases("init full", r.N(6, 60), 3, initFull)
	r.Cases("demo full", r.N(6, 60), 6, demoFull)
	r.Require("failed demos", 4)
	r.Require("written", 8)
	r.Require("refused", 15)
	r.Require("filled", 4)
	r.Require("records compared", 2000)
}

func initCase(c *hk.C) {
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "rothko.toml")
	other := filepath.Join(dir, "other")
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	before := c.Bytes(c.Pick(0, 1, 100, len(config.InitialConfig), 5000))
	must(ioutil.WriteFile(other, before, 0600))
	args := []string{"init"}
	exists, parallel := true, 1
	what := c.PickS("nothing", "nothing", "file", "empty", "directory", "link", "dangling", "configuration", "arguments", "many")
	switch what {
	case "nothing":
		exists = false
	case "many":
		exists = false
		parallel = c.Range(2, 8)
	case "file":
		must(ioutil.WriteFile(path, before, os.FileMode(c.Pick(0600, 0644, 0400))))
	case "empty":
		must(ioutil.WriteFile(path, nil, 0644))
		before = nil
	case "directory":
		must(os.Mkdir(path, 0755))
	case "link":
		must(os.Symlink(c.PickS("other", other), path))
	case "dangling":
		must(os.Symlink(c.PickS("missing", filepath.Join(dir, "missing"), "no/where", "rothko.toml"), path))
	case "configuration":
		before = []byte(strings.Replace(config.InitialConfig, "10m", "20m", 1))
		must(ioutil.WriteFile(path, before, 0644))
	case "arguments":
		exists = false
		args = append(args, c.PickS("rothko.toml", "other", "x"))
	}
	var stamp time.Time
	if exists && what != "dangling" {
		stamp = time.Unix(int64(c.Range(1, 1e9)), 0)
		must(os.Chtimes(path, stamp, stamp))
	}
	c.Logf("%s", what)

	procs := make([]*proc, parallel)
	var wg sync.WaitGroup
	for i := range procs {
		i := i
		wg.Add(1)
		go func() { defer wg.Done(); procs[i] = launch(dir, args...) }()
	}
	wg.Wait()
	good := 0
	for _, p := range procs {
		defer p.kill()
		if !p.wait(60 * time.Second) {
			c.Failf("hang", "init does not end\n%s", p.out.String())
			return
		}
		if p.err == nil {
			good++
		}
		if strings.TrimSpace(p.out.String()) == "" {
			c.Failf("silent", "init says nothing")
			return
		}
	}
	names, err := ioutil.ReadDir(dir)
	must(err)
	left := make(map[string]bool)
	for _, info := range names {
		left[info.Name()] = true
	}
	delete(left, "other")
	if got, err := ioutil.ReadFile(other); err != nil || !bytes.Equal(got, before) && what != "empty" && what != "configuration" {
		c.Failf("other", "another file was changed: %v", err)
		return
	}
	switch {
	case what == "arguments":
		if good != 0 || len(left) != 0 {
			c.Failf("arguments", "with an argument it wrote %v: %s", left, procs[0].out.String())
			return
		}
		c.Count("refused", 1)
	case !exists:
		if good == 0 {
			c.Failf("init", "nothing is there, and it fails: %v %s", procs[0].err, procs[0].out.String())
			return
		}
		data, err := ioutil.ReadFile(path)
		if err != nil {
			c.Failf("init", "it did not write: %v", err)
			return
		}
		if string(data) != config.InitialConfig {
			c.Failf("init", "it wrote something else: %s", data)
			return
		}
		if len(left) != 1 {
			c.Failf("init", "it left %v", left)
			return
		}
		conf, err := config.Load(data)
		if err == nil && conf.Main.Duration <= 0 {
			err = fmt.Errorf("no duration")
		}
		if err == nil {
			_, err = registry.NewDatabase(ctx, conf.Database.Kind, conf.Database.Config)
		}
		if err == nil {
			_, err = registry.NewDistribution(ctx, conf.Dist.Kind, conf.Dist.Config)
		}
		for _, l := range conf.Listeners {
			if err == nil {
				_, err = registry.NewListener(ctx, l.Kind, l.Config)
			}
		}
		if err != nil {
			c.Failf("init", "what it wrote is no configuration: %v", err)
			return
		}
		// again, it must not
		if c.P(1, 2) {
			mine := append([]byte("# mine\n"), data...)
			must(ioutil.WriteFile(path, mine, 0644))
			p := launch(dir, "init")
			defer p.kill()
			if !p.wait(60*time.Second) || p.err == nil {
				c.Failf("again", "init goes on although there is a configuration: %s", p.out.String())
				return
			}
			if got, err := ioutil.ReadFile(path); err != nil || !bytes.Equal(got, mine) {
				c.Failf("again", "a configuration was replaced")
				return
			}
			c.Count("refused", 1)
		}
		c.Count("written", 1)
	default:
		if good != 0 {
			c.Failf("exists", "there is a %s, and init succeeds: %s", what, procs[0].out.String())
			return
		}
		info, err := os.Lstat(path)
		if err != nil {
			c.Failf("exists", "there was a %s, it is gone: %v", what, err)
			return
		}
		if is, was := info.IsDir(), what == "directory"; is != was || (info.Mode()&os.ModeSymlink != 0) != (what == "link" || what == "dangling") {
			c.Failf("exists", "there was a %s, it is something else: %v", what, info.Mode())
			return
		}
		if len(left) != 1 {
			c.Failf("exists", "there was a %s, and it left %v", what, left)
			return
		}
		if what == "dangling" {
			c.Count("refused", 1)
			break
		}
		if what != "directory" {
			if got, err := ioutil.ReadFile(path); err != nil || !bytes.Equal(got, before) {
				c.Failf("exists", "there was a %s, its contents changed", what)
				return
			}
		}
		if info, err := os.Stat(path); err != nil || !info.ModTime().Equal(stamp) {
			c.Failf("exists", "there was a %s, it was written", what)
			return
		}
		c.Count("refused", 1)
	}
	c.NonTrivial()
	c.Sig(what, before, parallel)
}

var demoMetrics = []string{"exp.decreasing", "exp.increasing", "exp.stable", "normal.decreasing", "normal.increasing", "normal.stable"}

// demoFails runs the demo where no value can be written.
func demoFails(c *hk.C) {
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	s := makeSetup(c, dir, time.Hour)
	s.opts.Tuning.Drop = false
	s.opts.Size, s.opts.Cap, s.opts.Files = 1024, 4000, 2
	what := c.PickS("a file in place of the directory", "a file in place of a parent", "values that are too large")
	s.where = filepath.Join(dir, "blocked")
	switch what {
	case "a file in place of the directory":
		ioutil.WriteFile(s.where, []byte("x"), 0644)
	case "a file in place of a parent":
		ioutil.WriteFile(s.where, []byte("x"), 0644)
		s.where = filepath.Join(s.where, "below")
	default:
		s.opts.Size, s.opts.Cap, s.comp = 90, 3, 200
	}
	if err := ioutil.WriteFile(s.path, []byte(s.text()), 0644); err != nil {
		panic(err)
	}
	p := launch(dir, "demo", s.path)
	defer p.kill()
	if !p.wait(75 * time.Second) {
		c.Failf("hang", "the demo does not end with %s\n%s\n%s", what, s.text(), p.out.String())
		return
	}
	if p.err == nil {
		c.Failf("lost", "the demo reports success with %s\n%s\n%s", what, s.text(), p.out.String())
		return
	}
	c.Count("failed demos", 1)
	c.Count("demos with "+what, 1)
	c.NonTrivial()
	c.Sig(what, s.opts)
}

func demoCase(c *hk.C) {
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	s := makeSetup(c, dir, time.Hour)
	s.opts.Size = c.Pick(256, 512, 1024)
	s.opts.Tuning.Drop = c.P(1, 3)
	if c.Index%8 == 3 {
		// values are refused at once
		s.opts.Tuning.Drop, s.opts.Tuning.Buffer = true, 0
	}
	full := c.P(2, 3)
	if s.comp > 20 {
		s.comp = 50
	}
	if full {
		s.opts.Cap, s.opts.Files = 4000, 2
	} else {
		s.opts.Cap, s.opts.Files = c.Range(30, 200), c.Range(1, 3)
	}
	if err := ioutil.WriteFile(s.path, []byte(s.text()), 0644); err != nil {
		panic(err)
	}
	p := launch(dir, "demo", s.path)
	defer p.kill()
	if !p.wait(75 * time.Second) {
		c.Failf("hang", "the demo does not end\n%s\n%s", s.text(), p.out.String())
		return
	}
	if p.err != nil {
		c.Failf("demo", "the demo fails with %v\n%s\n%s", p.err, s.text(), p.out.String())
		return
	}
	all, ok := s.stored(c)
	if !ok {
		return
	}
	var names []string
	for name, recs := range all {
		if len(recs) > 0 {
			names = append(names, name)
		}
	}
	sort.Strings(names)
	if strings.Join(names, " ") != strings.Join(demoMetrics, " ") && !(s.opts.Tuning.Drop && len(names) < len(demoMetrics)) {
		c.Failf("names", "there are %q", names)
		return
	}
	day := 24 * time.Hour
	for name, raws := range all {
		recs := decode(c, name, raws)
		if c.Failed() {
			return
		}
		if full && !s.opts.Tuning.Drop && len(recs) != 100 || len(recs) > 100 {
			c.Failf("records", "%q has %d records", name, len(recs))
			return
		}
		for i, rec := range recs {
			if i > 0 && rec.StartTime != recs[i-1].EndTime && !s.opts.Tuning.Drop {
				c.Failf("gap", "record %d of %q starts at %d, the one before ends at %d", i, name, rec.StartTime, recs[i-1].EndTime)
				return
			}
			d, err := load.Load(ctx, rec)
			if err != nil {
				c.Failf("read", "%v", err)
				return
			}
			if rec.StartTime >= rec.EndTime || rec.Observations < 300 || rec.Observations >= 600 || d.Len() != rec.Observations || rec.Merged < 0 || rec.Merged > 1 || !(rec.Min <= rec.Max) {
				c.Failf("record", "record %d of %q: %+v with %d in the distribution", i, name, rec, d.Len())
				return
			}
			if lo, hi, eps := d.Query(0), d.Query(1), 1e-3*math.Max(math.Abs(rec.Min), math.Abs(rec.Max)); !(lo >= rec.Min-eps && hi <= rec.Max+eps) {
				c.Failf("record", "record %d of %q is from %v to %v, its distribution from %v to %v", i, name, rec.Min, rec.Max, lo, hi)
				return
			}
		}
		c.Count("records compared", int64(len(recs)))
		if full && !s.opts.Tuning.Drop {
			first, last := recs[0].StartTime, recs[len(recs)-1].EndTime
			if first < p.begun.Add(-day).UnixNano() || first > p.exited.Add(-day).UnixNano() ||
				last < p.begun.Add(-time.Second).UnixNano() || last > p.exited.UnixNano() {
				c.Failf("day", "%q is from %d to %d, the demo ran from %d to %d", name, first, last, p.begun.UnixNano(), p.exited.UnixNano())
				return
			}
		}
	}
	if full && !s.opts.Tuning.Drop {
		c.Count("filled", 1)
	}
	if c.P(1, 3) {
		m := &model{recs: all}
		q := s.start(c)
		if q == nil {
			return
		}
		defer q.kill()
		if m.checkServed(c, s); c.Failed() || !s.interrupt(c, q) {
			return
		}
	}
	// once more, which may add nothing but must neither hang nor lose
	q := launch(dir, "demo", s.path)
	defer q.kill()
	if !q.wait(75*time.Second) || q.err != nil {
		c.Failf("again", "a second demo: %v\n%s", q.err, q.out.String())
		return
	}
	if full {
		again, ok := s.stored(c)
		if !ok {
			return
		}
		for name, raws := range all {
			if len(again[name]) < len(raws) {
				c.Failf("again", "%q had %d records, after a second demo %d", name, len(raws), len(again[name]))
				return
			}
			for i := range raws {
				if !bytes.Equal(raws[i], again[name][i]) {
					c.Failf("again", "record %d of %q was changed by a second demo", i, name)
					return
				}
			}
		}
	}
	c.NonTrivial()
	c.Sig(s.opts, full, s.comp)
}

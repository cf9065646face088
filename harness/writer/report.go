package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/dump"
	"github.com/vivint/rothko/external"
	"github.com/vivint/rothko/internal/zzverif/hk"
)

// PlugReports keeps what is logged and observed.
type PlugReports struct {
	mu     sync.Mutex
	totals []map[string]string // of what tells how many were written
	errors []string
	values map[string][]float64
}

func (p *PlugReports) Infow(msg string, keyvals ...interface{}) {
	p.mu.Lock()
	defer p.mu.Unlock()
	m := make(map[string]string)
	for i := 0; i+1 < len(keyvals); i += 2 {
		m[fmt.Sprint(keyvals[i])] = fmt.Sprint(keyvals[i+1])
	}
	if m["writes"] != "" {
		p.totals = append(p.totals, m)
	}
}

func (p *PlugReports) Errorw(msg string, keyvals ...interface{}) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.errors = append(p.errors, fmt.Sprint(msg, " ", fmt.Sprintf("%v", keyvals)))
}

func (p *PlugReports) Observe(name string, value float64) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.values == nil {
		p.values = make(map[string][]float64)
	}
	p.values[name] = append(p.values[name], value)
}

// take returns what was reported since the last call.
func (p *PlugReports) take() (errors []string, values map[string][]float64, totals []map[string]string) {
	p.mu.Lock()
	defer p.mu.Unlock()
	errors, values, totals = p.errors, p.values, p.totals
	p.totals, p.errors, p.values = nil, nil, nil
	return errors, values, totals
}

var reports PlugReports

// c32 has nothing run next to anything else, so that what is reported is due
// to the case.
func c32(r *hk.Run) {
	r.Rule("dumps into databases that answer in every way, alone and several at once, and connections that send well-formed and malformed lines, with a recording logger and monitor; what is reported compared with the answers given and the lines sent. non-trivial if something was reported; distinct by amounts")
	external.Default = external.Resources{Logger: &reports, Monitor: &reports}
	r.Cases("dumps", r.N(800, 20000), 1, reportDumps)
	var next int64
	r.Cases("lines", r.N(150, 4000), 1, func(c *hk.C) { reportLines(c, &next) })
	r.Cases("partial", r.N(60, 500), 1, reportPartial)
	r.Require("dumps reported", 1000)
	r.Require("failures reported", 2000)
	r.Require("lines reported", 1000)
}

// outcomeDB answers by the name of the metric.
type outcomeDB struct {
	fakeDB
	writes, skips, errs int64
	slowest             int64
	failed              sync.Map
	pause               time.Duration
}

func (o *outcomeDB) Queue(ctx context.Context, metric string, start, end int64, data []byte, cb func(bool, error)) error {
	kind := metric[:strings.Index(metric, "!")]
	answer := func(written bool, err error) {
		if written {
			atomic.AddInt64(&o.writes, 1)
		} else {
			atomic.AddInt64(&o.skips, 1)
		}
		if err != nil {
			atomic.AddInt64(&o.errs, 1)
		}
		if !written || err != nil {
			o.failed.Store(metric, err)
		}
		cb(written, err)
	}
	if strings.HasPrefix(kind, "late") {
		kind = kind[4:]
		go func() {
			time.Sleep(o.pause)
			switch kind {
			case "ok":
				answer(true, nil)
			case "skip":
				answer(false, nil)
			case "err":
				answer(false, errors.New("broken because of "+metric))
			case "both":
				answer(true, errors.New("broken because of "+metric))
			}
		}()
		return nil
	}
	switch kind {
	case "ok":
		answer(true, nil)
	case "skip":
		answer(false, nil)
	case "err":
		answer(false, errors.New("broken because of "+metric))
	case "both":
		answer(true, errors.New("broken because of "+metric))
	case "return":
		err := errors.New("broken because of " + metric)
		o.failed.Store(metric, err)
		atomic.AddInt64(&o.skips, 1)
		atomic.AddInt64(&o.errs, 1)
		return err
	}
	return nil
}

var _ database.DB = (*outcomeDB)(nil)

func reportDumps(c *hk.C) {
	o := &outcomeDB{pause: time.Duration(c.Pick(0, 0, 100, 3000)) * time.Microsecond}
	d := dump.New(dump.Options{DB: o, Period: time.Hour})
	k := c.Range(1, 3)
	worlds := make([]*world, k)
	late := false
	kinds := []string{"ok", "skip", "err", "both", "return", "lateok", "lateskip", "lateerr", "lateboth"}
	if c.P(1, 3) { // without any, or with nothing but failures
		kinds = [][]string{{"ok"}, {"ok", "lateok"}, {"err"}, {"return", "skip"}}[c.Intn(4)]
	}
	all := map[string]bool{}
	for i := range worlds {
		worlds[i] = newWorld(c, true, 0, nil)
		var adds []add
		for n := c.Pick(0, 1, c.Range(1, 30), c.Range(1, 200)); n > 0; n-- {
			kind := kinds[c.Intn(len(kinds))]
			late = late || strings.HasPrefix(kind, "late")
			name := fmt.Sprintf("%s!%d.%d.%s", kind, i, n, c.PickS("x", "%s", "é", "a b"))
			adds = append(adds, add{metric: name, val: 1})
			all[name] = true
		}
		worlds[i].addAll(adds, 1)
	}
	reports.take()
	before := time.Now()
	var wg sync.WaitGroup
	for _, wd := range worlds {
		wd := wd
		wg.Add(1)
		go func() { defer wg.Done(); d.Dump(ctx, wd.w) }()
	}
	if !within(c, "Dump", wg.Wait) {
		return
	}
	took := time.Since(before).Seconds()
	errs, values, totals := reports.take()
	if len(totals) != k {
		c.Failf("totals", "%d dumps log %v", k, totals)
		return
	}
	for _, v := range []struct {
		name string
		want int64
	}{{"metric_writes", o.writes}, {"metric_skips", o.skips}, {"metric_errors", o.errs}} {
		got := values[v.name]
		sum := 0.0
		for _, x := range got {
			sum += x
		}
		if len(got) != k || sum != float64(v.want) {
			c.Failf("counts", "%d dumps observe %s as %v, the database answered so %d times", k, v.name, got, v.want)
			return
		}
		logged := int64(0)
		for _, t := range totals {
			x, _ := strconv.ParseInt(t[strings.TrimPrefix(v.name, "metric_")], 10, 64)
			logged += x
		}
		if logged != v.want {
			c.Failf("counts", "%d dumps log %s as %v, the database answered so %d times", k, v.name, totals, v.want)
			return
		}
	}
	durations := values["metric_dump_duration"]
	longest := 0.0
	for _, x := range durations {
		longest = math.Max(longest, x)
	}
	if len(durations) != k || longest > took || late && longest < o.pause.Seconds() {
		c.Failf("duration", "%d dumps observe durations %v, they took %v and the answers %v", k, durations, took, o.pause)
		return
	}
	c.Count("dumps reported", int64(k))
	reported := make(map[string]bool)
	for _, e := range errs {
		for name := range all {
			if strings.Contains(e, name) {
				reported[name] = true
				if err, ok := o.failed.Load(name); ok && err != nil && !strings.Contains(e, err.(error).Error()) {
					c.Failf("reason", "the failure of %q is reported without its reason: %s", name, e)
					return
				}
			}
		}
	}
	n := 0
	for name := range all {
		_, failed := o.failed.Load(name)
		if failed && !(reported[name]) {
			c.Failf("unreported", "%q was not stored, which is not reported", name)
			return
		}
		if !failed && reported[name] && !contained(name, &o.failed) {
			c.Failf("invented", "%q was stored, and is reported as an error: %q", name, errs)
			return
		}
		if failed {
			n++
		}
	}
	c.Count("failures reported", int64(n))
	c.Sample(fmt.Sprintf("%d dumps, %d metrics, %d not stored, first errors %.300q", k, len(all), n, errs))
	if len(all) > 0 {
		c.NonTrivial()
	}
	c.Sig(k, len(all), n, o.writes)
}

// contained returns if the name is part of another one.
func contained(name string, failed *sync.Map) (found bool) {
	failed.Range(func(k, v interface{}) bool {
		found = found || strings.Contains(k.(string), name)
		return !found
	})
	return found
}

// reportLines sends lines of which some are malformed.
func reportLines(c *hk.C, next *int64) {
	wd := newWorld(c, true, 0, nil)
	l := listen(c, next, wd.w)
	if l == nil {
		return
	}
	reports.take()
	conns := c.Range(1, 4)
	var bad []string
	var wg sync.WaitGroup
	total := 0
	for i := 0; i < conns; i++ {
		var b strings.Builder
		clean := c.P(1, 3)
		for n := c.Range(1, 60); n > 0; n-- {
			total++
			if clean || c.P(2, 3) {
				fmt.Fprintf(&b, "m.%d %d 1\n", i, n)
				continue
			}
			tag := fmt.Sprintf("bad-%d-%d-%d", c.Index, i, n)
			b.WriteString(c.PickS(tag, tag+" 1", tag+" 1 2 3", tag+" x 2", tag+"  1 2", tag+" 1e999 2", tag+" 1,5 2", strings.Repeat("y", c.Pick(1, 100, 1000))+" "+tag, "1 2 3 "+tag) + "\n")
			bad = append(bad, tag)
		}
		text := b.String()
		wg.Add(1)
		go func() {
			defer wg.Done()
			conn, err := net.Dial("tcp", l.addr)
			if err != nil {
				c.Failf("connect", "%v", err)
				return
			}
			defer conn.Close()
			conn.SetDeadline(time.Now().Add(60 * time.Second))
			if _, err = io.WriteString(conn, text); err == nil {
				conn.(*net.TCPConn).CloseWrite()
				_, err = conn.Read(make([]byte, 1))
			}
			if err != io.EOF {
				c.Failf("send", "%v", err)
			}
		}()
	}
	wg.Wait()
	errs, _, _ := reports.take()
	if !l.stop(c) || c.Failed() {
		return
	}
	for _, tag := range bad {
		found := false
		for _, e := range errs {
			// a name is followed by something that is no digit
			for rest := e; !found; {
				at := strings.Index(rest, tag)
				if at < 0 {
					break
				}
				rest = rest[at+len(tag):]
				found = rest == "" || rest[0] < '0' || rest[0] > '9'
			}
			if found {
				break
			}
		}
		if !found {
			c.Failf("unreported", "the malformed line of %q is not reported, but %.300q", tag, errs)
			return
		}
	}
	if len(bad) == 0 && len(errs) > 0 {
		c.Failf("invented", "%d well-formed lines are reported as %.300q", total, errs)
		return
	}
	c.Count("lines reported", int64(len(bad)))
	c.NonTrivial()
	c.Sig(conns, total, len(bad))
}

// reportPartial has one of logger and monitor only, or none.
func reportPartial(c *hk.C) {
	defer func() { external.Default = external.Resources{Logger: &reports, Monitor: &reports} }()
	var res external.Resources
	logs, observes := c.P(1, 2), c.P(1, 2)
	if logs {
		res.Logger = &reports
	}
	if observes {
		res.Monitor = &reports
	}
	external.Default = res
	reports.take()
	o := &outcomeDB{}
	d := dump.New(dump.Options{DB: o, Period: time.Hour})
	w := data.NewWriter(newPlug(0, nil))
	for _, name := range []string{"ok!1", "err!1", "return!1", "lateskip!1"} {
		w.Add(ctx, name, 1, nil)
	}
	c.Guard("dump", func() { d.Dump(ctx, w) })
	if c.Failed() {
		return
	}
	errs, values, _ := reports.take()
	if logs != (len(errs) > 0) || observes != (len(values) > 0) {
		c.Failf("partial", "logger %v, monitor %v: %q %v", logs, observes, errs, values)
		return
	}
	c.NonTrivial()
	c.Sig(logs, observes)
}

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/internal/zzverif/hk"
)

// program is the path of the real program.
func program() string {
	for _, name := range []string{"rothko-race", "rothko"} {
		path := filepath.Join(os.Getenv("VERIF_WORK"), name)
		if _, err := os.Stat(path); err == nil {
			return path
		}
	}
	panic("harness: the program was not built")
}

// output is written by a process and read by others.
type output struct {
	mu  sync.Mutex
	buf bytes.Buffer
}

func (o *output) Write(p []byte) (int, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.buf.Write(p)
}

func (o *output) String() string {
	o.mu.Lock()
	defer o.mu.Unlock()
	s := o.buf.String()
	if len(s) > 8000 {
		s = s[:4000] + "\n...\n" + s[len(s)-4000:]
	}
	return s
}

// proc is a process of the program.
type proc struct {
	cmd    *exec.Cmd
	out    output
	done   chan struct{}
	err    error
	begun  time.Time
	exited time.Time
}

func launch(dir string, args ...string) *proc { return launchEnv(dir, nil, args...) }

func launchEnv(dir string, env []string, args ...string) *proc {
	p := &proc{cmd: exec.Command(program(), args...), done: make(chan struct{})}
	p.cmd.Dir = dir
	if env != nil {
		p.cmd.Env = append(os.Environ(), env...)
	}
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.out
	p.begun = time.Now()
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	go func() {
		p.err = p.cmd.Wait()
		p.exited = time.Now()
		close(p.done)
	}()
	return p
}

// wait returns if the process ended in time.
func (p *proc) wait(d time.Duration) bool {
	select {
	case <-p.done:
		return true
	default:
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-p.done:
		return true
	case <-t.C:
		return false
	}
}

func (p *proc) kill() {
	p.cmd.Process.Kill()
	<-p.done
}

var next int64

// address gives everyone an address of its own, on the loopback network.
func address() string {
	n := atomic.AddInt64(&next, 1)
	return fmt.Sprintf("127.%d.%d.%d:%d", 10+os.Getpid()%200, n/250%250, 1+n%250, 20000+n%97)
}

// setup is a configuration of the server.
type setup struct {
	dir       string
	where     string // the database's directory, as configured
	opts      files.Options
	period    time.Duration
	comp      float64
	api       string
	listeners []string
	path      string
}

func (s *setup) text() string {
	var b strings.Builder
	fmt.Fprintf(&b, "[main]\nduration = %q\n", s.period)
	for _, addr := range s.listeners {
		fmt.Fprintf(&b, "[[listeners.graphite]]\naddress = %q\n", addr)
	}
	fmt.Fprintf(&b, "[database.files]\ndirectory = %q\nsize = %d\ncap = %d\nfiles = %d\n", s.where, s.opts.Size, s.opts.Cap, s.opts.Files)
	fmt.Fprintf(&b, "[database.files.tuning]\nbuffer = %d\ndrop = %v\nhandles = %d\nworkers = %d\n", s.opts.Tuning.Buffer, s.opts.Tuning.Drop, s.opts.Tuning.Handles, s.opts.Tuning.Workers)
	fmt.Fprintf(&b, "[dist.tdigest]\ncompression = %.1f\n", s.comp)
	fmt.Fprintf(&b, "[api]\naddress = %q\n", s.api)
	return b.String()
}

// data returns the directory of the database. relative ones are relative to
// the working directory of the program.
func (s *setup) data() string {
	if filepath.IsAbs(s.where) {
		return s.where
	}
	return filepath.Join(s.dir, s.where)
}

func makeSetup(c *hk.C, dir string, period time.Duration) *setup {
	s := &setup{
		dir: dir, where: filepath.Join(dir, "data"), period: period, api: address(), path: filepath.Join(dir, "rothko.toml"),
		comp: float64(c.Pick(5, 20, 1000)),
		opts: files.Options{
			Size: c.Pick(100, 256, 1024), Cap: c.Pick(600, 1000), Files: c.Range(2, 4),
			Tuning: files.Tuning{Buffer: c.Pick(0, 1, 10, 1000), Handles: c.Pick(0, 1, 50), Workers: c.Pick(0, 1, 2, 4)},
		},
	}
	switch c.Intn(8) {
	case 0:
		s.where = c.PickS("data", "./data", "data/", "some/where")
	case 1:
		s.where = "" // the working directory
	}
	if s.comp > 20 && s.opts.Size < 256 {
		s.opts.Size = 256 // large distributions have to fit
	}
	for i := c.Range(1, 3); i > 0; i-- {
		s.listeners = append(s.listeners, address())
	}
	if err := ioutil.WriteFile(s.path, []byte(s.text()), 0644); err != nil {
		panic(err)
	}
	c.Logf("%s", s.text())
	return s
}

var client = &http.Client{Timeout: 30 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}

// get asks the API.
func (s *setup) get(path string, vals url.Values) (int, []byte, error) {
	req, err := http.NewRequest("GET", "http://"+s.api+path+"?"+vals.Encode(), nil)
	if err != nil {
		panic(err)
	}
	req.Header.Set("Accept", "application/json")
	resp, err := client.Do(req)
	if err != nil {
		return 0, nil, err
	}
	defer resp.Body.Close()
	body, err := ioutil.ReadAll(resp.Body)
	return resp.StatusCode, body, err
}

// list asks the API for all of the metrics.
func (s *setup) list() ([]string, error) {
	code, body, err := s.get("/api/query", url.Values{"query": {""}, "results": {"100000"}})
	if err != nil {
		return nil, err
	}
	var names []string
	if code != 200 {
		return nil, fmt.Errorf("status %d: %s", code, body)
	}
	return names, json.Unmarshal(body, &names)
}

// before asks the API for the latest record of the metric before the time.
func (s *setup) before(metric string, now int64) ([]byte, error) {
	code, body, err := s.get("/api/render", url.Values{
		"metric": {metric}, "now": {fmt.Sprint(now)}, "duration": {"1ns"}, "width": {"400"}, "height": {"350"}, "samples": {"3"},
	})
	if err != nil {
		return nil, err
	}
	if code == 500 && bytes.Contains(body, []byte("no such file or directory")) {
		return nil, nil // nothing was ever stored
	}
	if code != 200 {
		return nil, fmt.Errorf("status %d: %s", code, body)
	}
	var out struct {
		Metric   string
		Earliest []byte
	}
	if err := json.Unmarshal(body, &out); err != nil {
		return nil, err
	}
	if out.Metric != metric {
		return nil, fmt.Errorf("answer is about %q", out.Metric)
	}
	return out.Earliest, nil
}

// walk asks the API for all of the records of the metric, latest first.
func (s *setup) walk(metric string) (out [][]byte, err error) {
	now := time.Now().Add(time.Hour).UnixNano()
	for {
		raw, err := s.before(metric, now)
		if err != nil || len(raw) == 0 {
			return out, err
		}
		var rec data.Record
		if err := rec.Unmarshal(raw); err != nil {
			return out, err
		}
		if rec.EndTime >= now {
			return out, fmt.Errorf("the record before %d ends at %d", now, rec.EndTime)
		}
		out = append(out, raw)
		now = rec.EndTime
	}
}

// start runs the server until it answers.
func (s *setup) start(c *hk.C) *proc {
	p := launch(s.dir, "run", s.path)
	deadline := time.Now().Add(60 * time.Second)
	for {
		_, err := s.list()
		if err == nil {
			break
		}
		select {
		case <-p.done:
			if strings.Contains(p.out.String(), "address already in use") {
				panic("harness: address in use: " + p.out.String())
			}
			c.Failf("start", "the server ended with %v\n%s", p.err, p.out.String())
			return nil
		default:
		}
		if time.Now().After(deadline) {
			c.Failf("start", "the API does not answer: %v\n%s", err, p.out.String())
			p.kill()
			return nil
		}
		time.Sleep(5 * time.Millisecond)
	}
	for _, addr := range s.listeners {
		for {
			conn, err := net.Dial("tcp", addr)
			if err == nil {
				conn.Close()
				break
			}
			if time.Now().After(deadline) {
				c.Failf("start", "nothing listens on %s: %v\n%s", addr, err, p.out.String())
				p.kill()
				return nil
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
	return p
}

// interrupt ends the server.
func (s *setup) interrupt(c *hk.C, p *proc) bool {
	p.cmd.Process.Signal(syscall.SIGINT)
	if !p.wait(60 * time.Second) {
		p.cmd.Process.Signal(syscall.SIGQUIT)
		p.wait(5 * time.Second)
		c.Failf("exit", "the server does not end after an interrupt\n%s", p.out.String())
		p.kill()
		return false
	}
	if p.err != nil {
		c.Failf("exit", "after an interrupt the server ends with %v\n%s", p.err, p.out.String())
		return false
	}
	return true
}

// stored reads everything that is stored, oldest first.
func (s *setup) stored(c *hk.C) (map[string][][]byte, bool) {
	db := files.New(s.data(), s.opts)
	if err := db.PopulateMetrics(ctx); err != nil {
		c.Failf("read", "what was stored can not be listed: %v", err)
		return nil, false
	}
	var names []string
	if err := db.Metrics(ctx, func(name string) (bool, error) {
		names = append(names, string(append([]byte(nil), name...)))
		return true, nil
	}); err != nil {
		c.Failf("read", "what was stored can not be listed: %v", err)
		return nil, false
	}
	out := make(map[string][][]byte)
	for _, name := range names {
		var recs [][]byte
		err := db.Query(ctx, name, math.MaxInt64, nil, func(ctx context.Context, start, end int64, data []byte) (bool, error) {
			recs = append(recs, append([]byte(nil), data...))
			return true, nil
		})
		if err != nil {
			c.Failf("read", "what was stored for %q can not be read: %v", name, err)
			return nil, false
		}
		for i, j := 0, len(recs)-1; i < j; i, j = i+1, j-1 {
			recs[i], recs[j] = recs[j], recs[i]
		}
		out[name] = recs
	}
	return out, true
}

func decode(c *hk.C, name string, raws [][]byte) (out []data.Record) {
	for _, raw := range raws {
		var rec data.Record
		if err := rec.Unmarshal(raw); err != nil {
			c.Failf("read", "a record stored for %q is not valid: %v", name, err)
			return nil
		}
		out = append(out, rec)
	}
	return out
}

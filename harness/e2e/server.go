package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"math"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/vivint/rothko/data/load"
	_ "github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/internal/zzverif/hk"
)

func c18(r *hk.Run) {
	r.Rule("the real program, built with the race detector, runs with generated configurations; several connections send generated lines to its listeners, some are still sending at the interrupt; after it exited the data directory is read, and after it was started again the API is asked for every record of every metric; also killed, started twice, on a disk that becomes full, and started with configurations and addresses that can not work. non-trivial if observations were stored; distinct by configuration and metrics")
	r.Cases("serve", r.N(28, 400), 6, serveCase)
	r.Cases("kill", r.N(8, 120), 6, killCase)
	r.Cases("refuse", r.N(48, 400), 8, refuseCase)
	r.Cases("full disk", r.N(6, 60), 6, serveFull)
	r.Cases("paused", r.N(3, 30), 3, pausedCase)
	r.Cases("period", r.N(4, 40), 4, periodCase)
	r.Cases("slow", r.N(1, 8), 1, slowCase)
	r.Require("periods", 10)
	r.Require("slow answers", 2)
	r.Require("cycles", 30)
	r.Require("observations handled", 5000)
	r.Require("records compared", 200)
	r.Require("answers of the API", 300)
	r.Require("cut connections", 10)
	r.Require("kills", 5)
	r.Require("refused", 30)
}

// conn is what one connection sends.
type sender struct {
	addr   string
	text   []byte
	cuts   []int // sizes of the writes
	sums   map[string][]float64
	t0, t1 time.Time
	err    error
}

var nameParts = []string{"a", "b", "A", "srv", "cpu", "é", "0", "data", "tmp", "..", "%", "x=y", "/", "a/b", "-", "_", "日本", "*", "load:1", "~"}

func makeName(c *hk.C) string {
	if c.P(1, 30) {
		return strings.Repeat("long", c.Range(1, 12))
	}
	if c.P(1, 40) {
		// as long as a path can be, and three times as long in a request
		return strings.Repeat(strings.Repeat(c.PickS("=", "日", "\"", "é", "+"), 60)[:60]+".", 54) + "end"
	}
	n := c.Range(1, 4)
	var parts []string
	for i := 0; i < n; i++ {
		parts = append(parts, nameParts[c.Intn(len(nameParts))])
	}
	return strings.Join(parts, ".")
}

func makeValue(c *hk.C) float64 {
	switch c.Intn(4) {
	case 0:
		return float64(c.Range(-5, 5))
	case 1:
		return c.Float() * 1000
	case 2:
		return (c.Float() - .5) * math.Pow(10, float64(c.Range(-10, 10)))
	default:
		return float64(c.Range(0, 1000000))
	}
}

// makeSender has n observations of the metrics.
func makeSender(c *hk.C, addr string, names []string, n int) *sender {
	s := &sender{addr: addr, sums: make(map[string][]float64)}
	var b bytes.Buffer
	for i := 0; i < n; i++ {
		name, v := names[c.Intn(len(names))], makeValue(c)
		eol := "\n"
		fmt.Fprintf(&b, "%s %s %d%s", name, strconv.FormatFloat(v, byte(c.Pick('g', 'f', 'e')), -1, 64), c.Intn(2000000000), eol)
		s.sums[name] = append(s.sums[name], v)
		if c.P(1, 20) {
			b.WriteString(c.PickS("junk\n", name+" NaN 1\n", name+" +Inf 1\n", name+" x 1\n", name+" 5\n", name+" 5 1 1\n", "\n", name+"  5 1\n", strings.Repeat("x", 70000)+" 5 1\n"))
		}
	}
	s.text = b.Bytes()
	if c.P(1, 4) { // the last line needs no end
		s.text = bytes.TrimSuffix(s.text, []byte("\n"))
	}
	for left := len(s.text); left > 0; {
		k := c.Pick(1, c.Range(1, 100), c.Range(1, 5000), 1<<20)
		if len(s.text) > 20000 && k < 100 {
			k = 5000
		}
		if k > left {
			k = left
		}
		s.cuts = append(s.cuts, k)
		left -= k
	}
	return s
}

// send returns when the server has handled everything.
func (s *sender) send() {
	s.t0 = time.Now()
	defer func() { s.t1 = time.Now() }()
	conn, err := net.Dial("tcp", s.addr)
	if err != nil {
		s.err = err
		return
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(60 * time.Second))
	text := s.text
	for _, k := range s.cuts {
		if _, err := conn.Write(text[:k]); err != nil {
			s.err = err
			return
		}
		text = text[k:]
	}
	// it closes the connection when it has handled what came before the end
	conn.(*net.TCPConn).CloseWrite()
	n, err := conn.Read(make([]byte, 1))
	if n != 0 || err != io.EOF {
		s.err = fmt.Errorf("at the end: %d %v", n, err)
	}
}

// model is what has to be stored.
type model struct {
	handled map[string][]float64 // for certain
	recs    map[string][][]byte  // stored before
	loss    int                  // how many may have been lost to dumps that overlapped
}

func (m *model) names() (out []string) {
	for name := range m.handled {
		out = append(out, name)
	}
	sort.Strings(out)
	return out
}

func extremes(vals []float64) (min, max float64) {
	min, max = math.Inf(1), math.Inf(-1)
	for _, v := range vals {
		min, max = math.Min(min, v), math.Max(max, v)
	}
	return min, max
}

// checkStored compares what is stored after a run with what was sent during
// it, and keeps it for the next one.
func (m *model) checkStored(c *hk.C, s *setup, p *proc, sent map[string][]float64, cut map[string]int, final bool) {
	all, ok := s.stored(c)
	if !ok {
		return
	}
	for name, raws := range m.recs {
		now := all[name]
		if len(now) < len(raws) {
			c.Failf("lost", "%q had %d records, and after another run %d", name, len(raws), len(now))
			return
		}
		for i := range raws {
			if !bytes.Equal(raws[i], now[i]) {
				c.Failf("changed", "record %d of %q is not the same after another run", i, name)
				return
			}
		}
	}
	lost := 0
	for name, raws := range all {
		recs := decode(c, name, raws)
		if c.Failed() {
			return
		}
		c.Count("records compared", int64(len(recs)))
		fresh := recs[len(m.recs[name]):]
		want, known := sent[name]
		limit, isCut := cut[name]
		if !known && !isCut {
			if len(fresh) > 0 {
				c.Failf("invented", "nothing was sent for %q, but there are records of it", name)
				return
			}
			continue
		}
		var obs int64
		min, max := math.Inf(1), math.Inf(-1)
		last := int64(0)
		if k := len(m.recs[name]); k > 0 {
			last = recs[k-1].EndTime
		}
		for i, rec := range fresh {
			obs += rec.Observations
			min, max = math.Min(min, rec.Min), math.Max(max, rec.Max)
			d, err := load.Load(ctx, rec)
			if err != nil {
				c.Failf("read", "the distribution of %q can not be read: %v", name, err)
				return
			}
			if d.Len() != rec.Observations {
				c.Failf("weight", "a record of %q says %d observations, the distribution has %d", name, rec.Observations, d.Len())
				return
			}
			if rec.StartTime > rec.EndTime || rec.StartTime < last || rec.StartTime < p.begun.UnixNano() || rec.EndTime > p.exited.UnixNano() {
				c.Failf("window", "record %d of %q is from %d to %d, the one before ends at %d and the server ran from %d to %d", i, name, rec.StartTime, rec.EndTime, last, p.begun.UnixNano(), p.exited.UnixNano())
				return
			}
			last = rec.EndTime
		}
		if final && len(fresh) > 1 {
			c.Failf("dumps", "there are %d records of %q although only one dump was due", len(fresh), name)
			return
		}
		if isCut {
			// values that count up, some of which were not handled any more
			if obs > int64(limit) || (obs > 0 && (min != 0 || (final && max != float64(obs-1)))) {
				c.Failf("cut", "of the values 0 to %d sent for %q there are %d, from %v to %v", limit-1, name, obs, min, max)
				return
			}
			c.Count("cut connections", 1)
			if obs > 0 && obs < int64(limit) {
				c.Count("connections cut in the middle", 1)
			}
			m.handled[name] = append(m.handled[name], make([]float64, obs)...)
			continue
		}
		if obs > int64(len(want)) {
			c.Failf("count", "%d observations of %q were sent, %d are stored", len(want), name, obs)
			return
		}
		lost += len(want) - int(obs)
		wmin, wmax := extremes(want)
		if obs == int64(len(want)) && (min != wmin || max != wmax) || min < wmin || max > wmax {
			c.Failf("extremes", "the observations of %q are from %v to %v, stored are %v to %v", name, wmin, wmax, min, max)
			return
		}
		m.handled[name] = append(m.handled[name], want...)
	}
	for name, want := range sent {
		if _, ok := all[name]; !ok {
			lost += len(want)
		}
	}
	if lost > m.loss {
		var detail []string
		for name, want := range sent {
			n := int64(0)
			for _, rec := range decode(c, name, all[name][min(len(m.recs[name]), len(all[name])):]) {
				n += rec.Observations
			}
			if n != int64(len(want)) {
				detail = append(detail, fmt.Sprintf("%q %d of %d", name, n, len(want)))
			}
		}
		sort.Strings(detail)
		if len(detail) > 10 {
			detail = detail[:10]
		}
		c.Failf("lost", "%d observations that were handled are not stored: %s\n%s", lost, strings.Join(detail, ", "), p.out.String())
		return
	}
	c.R.Max("most observations lost to overlapping dumps", int64(lost))
	m.recs = all
	c.Count("cycles", 1)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// checkServed compares what the API answers with what is stored.
func (m *model) checkServed(c *hk.C, s *setup) {
	// the names are read in the background
	deadline := time.Now().Add(30 * time.Second)
	for {
		names, err := s.list()
		if err != nil {
			c.Failf("list", "%v", err)
			return
		}
		sort.Strings(names)
		var want []string
		for name, recs := range m.recs {
			if len(recs) > 0 {
				want = append(want, name)
			}
		}
		sort.Strings(want)
		if strings.Join(names, "\n") == strings.Join(want, "\n") {
			break
		}
		if time.Now().After(deadline) {
			c.Failf("list", "the API lists %q, stored are %q", names, want)
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
	for name, raws := range m.recs {
		got, err := s.walk(name)
		if err != nil {
			c.Failf("walk", "%q: %v", name, err)
			return
		}
		c.Count("answers of the API", int64(len(got)+1))
		if len(got) != len(raws) {
			c.Failf("walk", "the API has %d records of %q, stored are %d", len(got), name, len(raws))
			return
		}
		for i := range got {
			if !bytes.Equal(got[i], raws[len(raws)-1-i]) {
				c.Failf("walk", "record %d of %q is not what was stored", i, name)
				return
			}
		}
	}
}

func serveCase(c *hk.C) {
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	period := time.Hour
	if c.P(1, 3) {
		period = time.Duration(c.Range(20, 300)) * time.Millisecond
	}
	s := makeSetup(c, dir, period)
	final := period == time.Hour
	m := &model{handled: make(map[string][]float64), recs: make(map[string][][]byte)}
	var names []string
	for i := c.Range(1, 25); i > 0; i-- {
		names = append(names, makeName(c))
	}
	cycles := c.Range(1, 3)
	for cycle := 0; cycle < cycles; cycle++ {
		p := s.start(c)
		if p == nil {
			return
		}
		if cycle > 0 {
			m.checkServed(c, s)
		}
		ok := !c.Failed() && cycleCase(c, s, m, p, names, cycle, final)
		if !ok {
			p.kill()
			return
		}
		hk.Progress()
	}
	p := s.start(c)
	if p == nil {
		return
	}
	m.checkServed(c, s)
	if c.Failed() || !s.interrupt(c, p) {
		p.kill()
		return
	}
	m.loss = 0
	m.checkStored(c, s, p, nil, nil, true) // nothing changed
	if len(m.recs) > 0 {
		c.NonTrivial()
	}
	c.Sig(s.opts, period, names, cycles)
}

// cycleCase sends to the running server, and interrupts it.
func cycleCase(c *hk.C, s *setup, m *model, p *proc, names []string, cycle int, final bool) bool {
	sent := make(map[string][]float64)
	limits := make(map[string]int) // what may have been sent at any time
	var rounds [][]*sender
	conns := 0
	for i := c.Range(0, 3); i > 0; i-- {
		var round []*sender
		for j := c.Range(1, 6); j > 0; j-- {
			sn := makeSender(c, s.listeners[c.Intn(len(s.listeners))], names, c.Pick(1, 10, c.Range(1, 200)))
			round = append(round, sn)
			for name, vals := range sn.sums {
				sent[name] = append(sent[name], vals...)
				limits[name] += len(vals)
			}
			conns++
		}
		rounds = append(rounds, round)
	}

	// idle connections must not get in the way
	var idle []net.Conn
	defer func() {
		for _, conn := range idle {
			conn.Close()
		}
	}()
	for _, addr := range append([]string{s.api}, s.listeners...) {
		if c.P(1, 2) {
			if conn, err := net.Dial("tcp", addr); err == nil {
				idle = append(idle, conn)
				if c.P(1, 2) {
					if addr == s.api {
						fmt.Fprintf(conn, "GET /api/query?query=x HTTP/1.1\r\nHost: x\r\n\r\n")
						conn.Read(make([]byte, 1000))
					} else {
						fmt.Fprintf(conn, "idle 5") // never ends
					}
				}
			}
		}
	}

	// readers must never see more than was sent
	stop := make(chan struct{})
	var wg sync.WaitGroup
	before := make(map[string]int64) // records known before
	for name, raws := range m.recs {
		before[name] = int64(len(raws))
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			got, err := s.list()
			if err != nil {
				return // it is ending
			}
			for _, name := range got {
				if limits[name] == 0 && before[name] == 0 && !strings.HasPrefix(name, "cut.") {
					c.Failf("list", "nothing was sent for %q, but the API lists it", name)
					return
				}
			}
			c.Count("answers of the API", 1)
			time.Sleep(time.Millisecond)
		}
	}()

	for _, round := range rounds {
		var rw sync.WaitGroup
		for _, sn := range round {
			sn := sn
			rw.Add(1)
			go func() { defer rw.Done(); sn.send() }()
		}
		rw.Wait()
		for _, sn := range round {
			if sn.err != nil {
				c.Failf("send", "%v\n%s", sn.err, p.out.String())
				close(stop)
				wg.Wait()
				return false
			}
		}
		hk.Progress()
	}
	for _, vals := range sent {
		c.Count("observations handled", int64(len(vals)))
	}

	// connections that are still sending when it ends
	cut := make(map[string]int)
	var cw sync.WaitGroup
	var going int32
	ncut := c.Intn(4)
	for i := 0; i < ncut; i++ {
		name := fmt.Sprintf("cut.%d.%d", cycle, i)
		n := c.Pick(5, 1000, 20000)
		cut[name] = n
		var b bytes.Buffer
		for v := 0; v < n; v++ {
			fmt.Fprintf(&b, "%s %d 1\n", name, v)
		}
		addr := s.listeners[c.Intn(len(s.listeners))]
		chunk := c.Pick(50, 1000, 1<<20)
		cw.Add(1)
		go func() {
			defer cw.Done()
			conn, err := net.Dial("tcp", addr)
			atomic.AddInt32(&going, 1)
			if err != nil {
				return
			}
			defer conn.Close()
			conn.SetDeadline(time.Now().Add(60 * time.Second))
			text := b.Bytes()
			for len(text) > 0 {
				k := min(chunk, len(text))
				if _, err := conn.Write(text[:k]); err != nil {
					return
				}
				text = text[k:]
			}
			<-p.done
		}()
	}
	for atomic.LoadInt32(&going) < int32(ncut) {
		time.Sleep(100 * time.Microsecond)
	}
	time.Sleep(time.Duration(c.Pick(0, 0, c.Intn(3000), c.Intn(20000))) * time.Microsecond)
	if c.P(1, 4) && !final {
		time.Sleep(s.period)
	}
	ok := s.interrupt(c, p)
	close(stop)
	wg.Wait()
	if !ok {
		return false
	}
	cw.Wait()
	if !final {
		// a value that is added while a dump takes its metric may be lost,
		// which can be one for every connection and dump.
		dumps := int(p.exited.Sub(p.begun)/s.period) + 2
		m.loss = dumps * (conns + ncut)
	} else {
		m.loss = 0
	}
	// a metric is never the prefix of another here
	m.checkStored(c, s, p, sent, cut, final)
	return !c.Failed()
}

// pausedCase interrupts a server that has very many metrics to store, and stops
// it for a while when it has stored some of them, as a busy machine would.
func pausedCase(c *hk.C) {
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	s := makeSetup(c, dir, time.Hour)
	s.where = filepath.Join(dir, "data")
	s.comp = 5
	s.opts.Size, s.opts.Cap = 256, 4
	s.opts.Tuning.Buffer = c.Intn(3)
	if err := ioutil.WriteFile(s.path, []byte(s.text()), 0644); err != nil {
		panic(err)
	}
	p := s.start(c)
	if p == nil {
		return
	}
	n := 4000
	sent := make(map[string][]float64)
	var b bytes.Buffer
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("metric%d", i)
		sent[name] = []float64{float64(i)}
		fmt.Fprintf(&b, "%s %d 1\n", name, i)
	}
	sn := &sender{addr: s.listeners[0], text: b.Bytes(), cuts: []int{b.Len()}}
	sn.send()
	if sn.err != nil {
		c.Failf("send", "%v\n%s", sn.err, p.out.String())
		p.kill()
		return
	}
	hk.Progress()
	p.cmd.Process.Signal(syscall.SIGINT)
	some := c.Range(1, 300)
	for {
		select {
		case <-p.done:
		default:
			entries, _ := ioutil.ReadDir(s.data())
			if len(entries) < some {
				time.Sleep(200 * time.Microsecond)
				continue
			}
			p.cmd.Process.Signal(syscall.SIGSTOP)
			entries, _ = ioutil.ReadDir(s.data())
			time.Sleep(6 * time.Second)
			p.cmd.Process.Signal(syscall.SIGCONT)
			if len(entries) < n {
				c.Count("paused during the last dump", 1)
			}
		}
		break
	}
	hk.Progress()
	if !p.wait(60 * time.Second) {
		c.Failf("exit", "the server does not end after an interrupt\n%s", p.out.String())
		p.kill()
		return
	}
	if p.err != nil {
		c.Failf("exit", "after an interrupt the server ends with %v\n%s", p.err, p.out.String())
		return
	}
	m := &model{handled: make(map[string][]float64), recs: make(map[string][][]byte)}
	m.checkStored(c, s, p, sent, nil, true)
	c.NonTrivial()
	c.Sig("paused", s.opts, some)
}

// periodCase sends all the time, and looks at when the records end.
func periodCase(c *hk.C) {
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	s := makeSetup(c, dir, time.Duration(c.Range(300, 600))*time.Millisecond)
	p := s.start(c)
	if p == nil {
		return
	}
	defer p.kill()
	conn, err := net.Dial("tcp", s.listeners[0])
	if err != nil {
		c.Failf("send", "%v", err)
		return
	}
	defer conn.Close()
	const periods = 7
	for until := time.Now().Add(periods * s.period); time.Now().Before(until); time.Sleep(5 * time.Millisecond) {
		if _, err := fmt.Fprintf(conn, "m 1 1\n"); err != nil {
			c.Failf("send", "%v\n%s", err, p.out.String())
			return
		}
		hk.Progress()
	}
	if !s.interrupt(c, p) {
		return
	}
	all, ok := s.stored(c)
	if !ok {
		return
	}
	recs := decode(c, "m", all["m"])
	if c.Failed() {
		return
	}
	// the last one was written at the end. one that is late may be due to the
	// machine, all of them may not.
	least, most := time.Hour, time.Duration(0)
	var ends []time.Duration
	for i := 0; i+2 < len(recs); i++ {
		d := time.Duration(recs[i+1].EndTime - recs[i].EndTime)
		ends = append(ends, d.Round(time.Millisecond))
		if d < least {
			least = d
		}
		if d > most {
			most = d
		}
	}
	if len(ends) == 0 && len(recs) >= 2 {
		// the machine was busy or the period is too long
		least = time.Duration(recs[0].EndTime - recs[0].StartTime)
		most = least
	}
	if len(recs) < 2 || least > s.period*3/2 || most < s.period/2 {
		c.Failf("period", "in %d periods of %v there are %d records, which end %v after one another", periods, s.period, len(recs), ends)
		return
	}
	c.Count("periods", int64(len(ends)))
	c.NonTrivial()
	c.Sig("period", s.period, len(recs))
}

// slowCase serves a large answer to someone who reads it slowly.
func slowCase(c *hk.C) {
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	s := makeSetup(c, dir, time.Hour)
	prefix := strings.Repeat(strings.Repeat("p", 80)+".", 40)
	p := s.start(c)
	if p == nil {
		return
	}
	sn := makeSender(c, s.listeners[0], []string{prefix + "m"}, 5)
	sn.send()
	if sn.err != nil || !s.interrupt(c, p) {
		c.Failf("send", "%v\n%s", sn.err, p.out.String())
		p.kill()
		return
	}
	at := filepath.Join(s.data(), strings.Replace(prefix, ".", "/", -1))
	entries, err := ioutil.ReadDir(filepath.Join(at, "m"))
	if err != nil || len(entries) != 1 {
		c.Failf("lost", "%q: %v %v", at, entries, err)
		return
	}
	n := c.Range(2500, 4000)
	want := []string{prefix + "m"}
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("m%d", i)
		if err := os.Mkdir(filepath.Join(at, name), 0755); err != nil {
			panic(err)
		}
		if err := os.Link(filepath.Join(at, "m", entries[0].Name()), filepath.Join(at, name, entries[0].Name())); err != nil {
			panic(err)
		}
		want = append(want, prefix+name)
	}
	sort.Strings(want)
	if p = s.start(c); p == nil {
		return
	}
	defer p.kill()
	deadline := time.Now().Add(60 * time.Second)
	for {
		names, err := s.list()
		if err != nil {
			c.Failf("list", "%v", err)
			return
		}
		if len(names) == len(want) {
			break
		}
		if time.Now().After(deadline) {
			c.Failf("list", "the API lists %d of %d metrics", len(names), len(want))
			return
		}
		time.Sleep(50 * time.Millisecond)
		hk.Progress()
	}
	var wg sync.WaitGroup
	for _, pause := range []time.Duration{0, 2 * time.Second, 7 * time.Second} {
		pause := pause
		wg.Add(1)
		go func() {
			defer wg.Done()
			d := net.Dialer{Timeout: 30 * time.Second, Control: func(network, address string, rc syscall.RawConn) error {
				return rc.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 4096) })
			}}
			conn, err := d.Dial("tcp", s.api)
			if err != nil {
				c.Failf("slow", "%v", err)
				return
			}
			defer conn.Close()
			conn.SetDeadline(time.Now().Add(120 * time.Second))
			fmt.Fprintf(conn, "GET /api/query?results=100000 HTTP/1.0\r\nHost: x\r\n\r\n")
			br := bufio.NewReaderSize(conn, 4096)
			resp, err := http.ReadResponse(br, nil)
			if err != nil {
				c.Failf("slow", "%v", err)
				return
			}
			time.Sleep(pause)
			hk.Progress()
			body, err := ioutil.ReadAll(resp.Body)
			var names []string
			if err == nil {
				err = json.Unmarshal(body, &names)
			}
			if err != nil || strings.Join(names, "\n") != strings.Join(want, "\n") {
				c.Failf("slow", "someone who pauses for %v gets %d bytes with %d of %d names: %v", pause, len(body), len(names), len(want), err)
				return
			}
			c.Count("slow answers", 1)
			c.R.Max("largest answer", int64(len(body)))
		}()
	}
	wg.Wait()
	if c.Failed() || !s.interrupt(c, p) {
		return
	}
	c.NonTrivial()
	c.Sig("slow", n)
}

// killCase kills the server: what its API showed is kept.
func killCase(c *hk.C) {
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	s := makeSetup(c, dir, time.Duration(c.Range(20, 100))*time.Millisecond)
	shown := make(map[string][][]byte)
	var names []string
	for i := c.Range(1, 8); i > 0; i-- {
		names = append(names, makeName(c))
	}
	for kills := c.Range(1, 3); kills > 0; kills-- {
		p := s.start(c)
		if p == nil {
			return
		}
		defer p.kill()
		if !checkShown(c, s, shown) {
			return
		}
		for round := c.Range(1, 3); round > 0; round-- {
			sn := makeSender(c, s.listeners[0], names, c.Range(5, 100))
			sn.send()
			if sn.err != nil {
				c.Failf("send", "%v\n%s", sn.err, p.out.String())
				return
			}
			// everything shows up within some periods
			last := ""
			for name := range sn.sums {
				last = name
			}
			deadline := time.Now().Add(60 * time.Second)
			was := len(shown[last])
			for {
				got, err := s.walk(last)
				if err != nil {
					c.Failf("walk", "%v", err)
					return
				}
				if len(got) > was {
					break
				}
				if time.Now().After(deadline) {
					c.Failf("dump", "what was sent for %q does not show up\n%s", last, p.out.String())
					return
				}
				time.Sleep(time.Millisecond)
			}
			for _, name := range names {
				got, err := s.walk(name)
				if err != nil {
					c.Failf("walk", "%v", err)
					return
				}
				shown[name] = got
			}
		}
		// more, so that it dies while it is busy
		sn := makeSender(c, s.listeners[0], names, 300)
		var wg sync.WaitGroup
		wg.Add(1)
		go func() { defer wg.Done(); sn.send() }()
		time.Sleep(time.Duration(c.Intn(150)) * time.Millisecond)
		p.cmd.Process.Signal(syscall.SIGKILL)
		<-p.done
		wg.Wait()
		c.Count("kills", 1)
		hk.Progress()
	}
	p := s.start(c)
	if p == nil {
		return
	}
	defer p.kill()
	if !checkShown(c, s, shown) || !s.interrupt(c, p) {
		return
	}
	c.NonTrivial()
	c.Sig(s.opts, names)
}

// checkShown checks that the records that were shown still are.
func checkShown(c *hk.C, s *setup, shown map[string][][]byte) bool {
	for name, raws := range shown {
		got, err := s.walk(name)
		if err != nil {
			c.Failf("walk", "%q: %v", name, err)
			return false
		}
		c.Count("answers of the API", int64(len(got)+1))
		if len(got) < len(raws) {
			c.Failf("killed", "the API showed %d records of %q before a kill and %d after it", len(raws), name, len(got))
			return false
		}
		got = got[len(got)-len(raws):]
		for i := range raws {
			if !bytes.Equal(got[i], raws[i]) {
				c.Failf("killed", "a record of %q was changed by a kill", name)
				return false
			}
		}
	}
	return true
}

// refuseCase starts the program with what can not work.
func refuseCase(c *hk.C) {
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	s := makeSetup(c, dir, time.Hour)
	text := s.text()
	replace := func(old, new string) string {
		out := strings.Replace(text, old, new, 1)
		if out == text {
			panic("harness: nothing replaced: " + old)
		}
		return out
	}
	args := []string{"run", s.path}
	listener := fmt.Sprintf("address = %q", s.listeners[0])
	kinds := []struct {
		what string
		fn   func()
	}{
		{"no duration", func() { text = replace("duration = \"1h0m0s\"", "") }},
		{"zero duration", func() { text = replace("\"1h0m0s\"", "\"0s\"") }},
		{"negative duration", func() { text = replace("\"1h0m0s\"", "\"-5m\"") }},
		{"duration that is none", func() { text = replace("\"1h0m0s\"", "\"soon\"") }},
		{"duration that is a number", func() { text = replace("\"1h0m0s\"", "60") }},
		{"no database", func() {
			text = replace("[database.files]", "[other.files]")
			text = replace("[database.files.tuning]", "[other.files.tuning]")
		}},
		{"two databases", func() { text += "[database.memory]\nx = 1\n" }},
		{"unknown database", func() {
			text = replace("[database.files]", "[database.memory]")
			text = replace("[database.files.tuning]", "[database.memory.tuning]")
		}},
		{"no distribution", func() { text = replace("[dist.tdigest]", "[other.tdigest]") }},
		{"unknown distribution", func() { text = replace("[dist.tdigest]", "[dist.histogram]") }},
		{"unknown listener", func() { text += "[[listeners.statsd]]\naddress = \"127.0.0.1:0\"\n" }},
		{"ill-typed address", func() { text = replace(listener, "address = 5") }},
		{"ill-typed size", func() { text = replace("size = ", "size = true # ") }},
		{"negative size", func() { text = replace("size = ", "size = -") }},
		{"size that holds no record", func() { text = replace("size = ", "size = 24 # ") }},
		{"no size", func() { text = replace("size = ", "# size = ") }},
		{"size that is too large", func() { text = replace("size = ", "size = 1000000 # ") }},
		{"negative capacity", func() { text = replace("cap = ", "cap = -") }},
		{"no capacity", func() { text = replace("cap = ", "# cap = ") }},
		{"negative files", func() { text = replace("files = ", "files = -") }},
		{"negative buffer", func() { text = replace("buffer = ", "buffer = -1 # ") }},
		{"negative workers", func() { text = replace("workers = ", "workers = -1 # ") }},
		{"negative compression", func() { text = replace("compression = ", "compression = -") }},
		{"compression that is too small", func() { text = replace("compression = ", "compression = 0.5 # ") }},
		{"no compression", func() { text = replace("compression = ", "# compression = ") }},
		{"ill-typed tuning", func() { text = replace("drop = ", "drop = 1 # ") }},
		{"plugin that is not there", func() { text = replace("[main]\n", "[main]\nplugins = [\"missing.so\"]\n") }},
		{"no configuration", func() { os.Remove(s.path); text = "" }},
		{"directory for a configuration", func() { args[1] = dir }},
		{"garbage", func() { text = string(c.Bytes(100)) + "[" }},
		{"cut configuration", func() { text = text[:strings.Index(text, "[dist")+c.Intn(5)] }},
		{"no arguments", func() { args = args[:1] }},
		{"two arguments", func() { args = append(args, s.path) }},
		{"listener without a port", func() { text = replace(listener, "address = \"127.0.0.1\"") }},
		{"API without a port", func() { text = replace(fmt.Sprintf("[api]\naddress = %q", s.api), "[api]\naddress = \"127.0.0.1\"") }},
		{"listener twice on an address", func() {
			text = replace("[database.files]", fmt.Sprintf("[[listeners.graphite]]\n%s\n[database.files]", listener))
		}},
		{"API on the address of a listener", func() { text = replace(fmt.Sprintf("[api]\naddress = %q", s.api), "[api]\n"+listener) }},
		{"certificate that is not there", func() { text += "[api.tls]\ncert = \"missing.pem\"\nkey = \"missing.key\"\n" }},
		{"certificate without a key", func() { text += "[api.tls]\ncert = \"missing.pem\"\n" }},
		{"key without a certificate", func() { text += "[api.tls]\nkey = \"missing.key\"\n" }},
		{"address of a listener in use", nil},
		{"address of the API in use", nil},
		{"another instance", nil},
	}
	kind := kinds[c.Index%len(kinds)]
	c.Logf("%s", kind.what)
	switch kind.what {
	case "address of a listener in use", "address of the API in use":
		addr := s.api
		if strings.Contains(kind.what, "listener") {
			addr = s.listeners[c.Intn(len(s.listeners))]
		}
		lis, err := net.Listen("tcp", addr)
		if err != nil {
			panic(err)
		}
		defer lis.Close()
	case "another instance":
		anotherCase(c, s)
		return
	default:
		kind.fn()
		if text != "" {
			if err := ioutil.WriteFile(s.path, []byte(text), 0644); err != nil {
				panic(err)
			}
		}
	}
	p := launch(dir, args...)
	defer p.kill()
	if !p.wait(60 * time.Second) {
		c.Failf("half", "with %s, the server goes on\n%s\n%s", kind.what, text, p.out.String())
		return
	}
	if code, ok := p.err.(interface{ ExitCode() int }); !ok || code.ExitCode() != 1 {
		c.Failf("refuse", "with %s, the program ends with %v\n%s", kind.what, p.err, p.out.String())
		return
	}
	if strings.TrimSpace(p.out.String()) == "" {
		c.Failf("silent", "with %s, the program says nothing", kind.what)
		return
	}
	c.Count("refused", 1)
	c.NonTrivial()
	c.Sig(kind.what)
}

// anotherCase starts a second server with the configuration of one that runs.
func anotherCase(c *hk.C, s *setup) {
	p := s.start(c)
	if p == nil {
		return
	}
	defer p.kill()
	m := &model{handled: make(map[string][]float64), recs: make(map[string][][]byte)}
	sent := make(map[string][]float64)
	for i := 0; i < 2; i++ {
		sn := makeSender(c, s.listeners[0], []string{"x", "y.z"}, 30)
		if sn.send(); sn.err != nil {
			c.Failf("send", "%v", sn.err)
			return
		}
		for name, vals := range sn.sums {
			sent[name] = append(sent[name], vals...)
		}
		if i > 0 {
			break
		}
		q := launch(s.dir, "run", s.path)
		defer q.kill()
		if !q.wait(60 * time.Second) {
			c.Failf("another", "a second server goes on")
			return
		}
		if q.err == nil {
			c.Failf("another", "a second server ends without an error")
			return
		}
	}
	if _, err := s.list(); err != nil {
		c.Failf("another", "a second server disturbed the first: %v", err)
		return
	}
	if !s.interrupt(c, p) {
		return
	}
	m.checkStored(c, s, p, sent, nil, true)
	c.Count("refused", 1)
	c.NonTrivial()
	c.Sig("another")
}

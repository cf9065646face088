package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/internal/zzverif/hk"
	"github.com/vivint/rothko/listener/graphite"
)

func c17(r *hk.Run) {
	r.Rule("several TCP connections at once, each sending lines - most well-formed, others with missing, extra or unparsable fields, empty, binary or far too long - cut into random segments and closed with or without a last newline, while other connections are opened, closed and reset; what the writer captures is compared with the lines. listeners are stopped while clients send, and the process runs out of descriptors for a moment. non-trivial if lines were sent on several connections or in several segments; distinct by shape")
	var next int64
	// this one is about the whole process, so that it runs alone
	r.Cases("exhausted", r.N(60, 600), 1, func(c *hk.C) { exhausted(c, &next) })
	// connections that are silent for long run next to everything else
	var slow sync.WaitGroup
	slow.Add(1)
	go func() {
		defer slow.Done()
		r.Cases("silent", 2, 2, func(c *hk.C) { silent(c, &next) })
	}()
	defer slow.Wait()
	r.Cases("many", r.N(6, 40), 2, func(c *hk.C) { crowd(c, &next) })
	r.Cases("long", r.N(8, 100), 2, func(c *hk.C) { longStream(c, &next) })
	r.Cases("lines", r.N(900, 30000), 6, func(c *hk.C) { lines(c, &next) })
	r.Cases("stop", r.N(400, 10000), 6, func(c *hk.C) { stopping(c, &next) })
	r.Cases("address", r.N(20, 200), 2, func(c *hk.C) { badAddress(c, &next) })
	slow.Wait()
	r.Require("silences", 18)
	r.Require("connections_at_once", 100)
	r.Require("lines_on_a_connection", 20000)
	r.Require("exhausted", 20)
	r.Require("observed", 20000)
	r.Require("malformed", 2000)
	r.Require("unterminated", 100)
	r.Require("too_long", 30)
	r.Require("stopped_while_sending", 100)
}

// address gives every case an address of its own, on the loopback network.
func address(next *int64) string {
	n := atomic.AddInt64(next, 1)
	return fmt.Sprintf("127.%d.%d.%d:%d", 10+os.Getpid()%200, n/250%250, 1+n%250, 20000+n%97)
}

type listener struct {
	addr   string
	w      *data.Writer
	cancel func()
	ret    chan error
}

func listen(c *hk.C, next *int64, w *data.Writer) *listener {
	l := &listener{addr: address(next), w: w, ret: make(chan error, 1)}
	cctx, cancel := context.WithCancel(ctx)
	l.cancel = cancel
	go func() { l.ret <- graphite.New(l.addr).Run(cctx, w) }()
	deadline := time.Now().Add(30 * time.Second)
	for {
		conn, err := net.Dial("tcp", l.addr)
		if err == nil {
			conn.Close()
			return l
		}
		select {
		case err := <-l.ret:
			panic(fmt.Sprint("the listener can not use ", l.addr, ": ", err))
		default:
		}
		if time.Now().After(deadline) {
			c.Failf("deaf", "the listener does not accept connections: %v", err)
			cancel()
			return nil
		}
		time.Sleep(200 * time.Microsecond)
	}
}

// stop ends the listener and checks that it is gone.
func (l *listener) stop(c *hk.C) bool {
	l.cancel()
	select {
	case <-l.ret:
	case <-time.After(60 * time.Second):
		c.Failf("blocked", "the listener does not return after its context ended")
		return false
	}
	if conn, err := net.DialTimeout("tcp", l.addr, 5*time.Second); err == nil {
		conn.Close()
		c.Failf("open", "the socket of a listener that has returned accepts connections")
		return false
	}
	return true
}

var names = []string{"a", "a.b.c", "A", "servers.web-1.cpu", "x;tag=1", "日本", "\xff\x00", "tab\there", "a\rb", "%s%d", "{}", "\"q\"", "-1", "1.5"}

func number(c *hk.C) (float64, string) {
	var v float64
	switch c.Intn(5) {
	case 0:
		v = float64(c.Range(-100, 100))
	case 1:
		v = c.Float()
	case 2:
		v = (c.Float() - .5) * math.Pow(10, float64(c.Range(-300, 300)))
	case 3:
		v = []float64{0, math.Copysign(0, -1), 1, -1, math.MaxFloat64, -math.MaxFloat64, 5e-324, 1e21, 1e-7}[c.Intn(9)]
	case 4:
		v = math.Round(c.Float()*1e6) / 1e3
	}
	f := []byte{'g', 'e', 'f', 'E', 'G'}[c.Intn(5)]
	if f == 'f' && (math.Abs(v) > 1e20 || (v != 0 && math.Abs(v) < 1e-20)) {
		f = 'e'
	}
	s := strconv.FormatFloat(v, f, -1, 64)
	if c.P(1, 10) && v >= 0 && s[0] != '-' {
		s = "+" + s
	}
	return v, s
}

func goodLine(c *hk.C, conn, i int) (string, string, float64) {
	name := names[c.Intn(len(names))]
	switch c.Intn(4) {
	case 0:
		name = fmt.Sprintf("%s.%d", name, conn)
	case 1:
		name += strings.Repeat(".x", c.Intn(40))
	case 2:
		if c.P(1, 20) {
			name += strings.Repeat("y", c.Pick(200, 4000, 5000, 30000, 59000))
		}
	}
	if c.P(1, 4) {
		// any byte can be the first one
		b := byte(c.Range(33, 126))
		if c.P(1, 4) {
			b = byte(c.Range(0, 255))
		}
		if b != ' ' && b != '\n' {
			name = string([]byte{b}) + name
		}
	}
	v, s := number(c)
	ts := fmt.Sprint(c.Pick(0, 1, 1500000000, 1600000000+i))
	return name + " " + s + " " + ts, name, v
}

func badLine(c *hk.C, i int) string {
	switch c.Intn(15) {
	case 0:
		return ""
	case 1:
		return "bad"
	case 2:
		return fmt.Sprintf("bad.%d 1", i)
	case 3:
		return fmt.Sprintf("bad.%d 1 2 3", i)
	case 4:
		return fmt.Sprintf("bad.%d  1 2", i)
	case 5:
		return fmt.Sprintf("bad.%d 1  2", i)
	case 6:
		return fmt.Sprintf(" bad.%d 1 2", i)
	case 7:
		return fmt.Sprintf("bad.%d x 2", i)
	case 8:
		return fmt.Sprintf("bad.%d 1.2.3 2", i)
	case 9:
		return fmt.Sprintf("bad.%d 1e999 2", i)
	case 10:
		return fmt.Sprintf("bad.%d 1,5 2", i)
	case 11:
		return "bad\t1\t2"
	case 12:
		b := c.Bytes(c.Intn(60))
		b = bytes.ReplaceAll(b, []byte("\n"), []byte("?"))
		b = bytes.ReplaceAll(b, []byte(" "), []byte("?"))
		return string(b)
	case 13:
		return fmt.Sprintf("bad.%d %s 2", i, c.PickS("nan", "NaN", "inf", "-Inf", "+inf", "Infinity"))
	}
	return fmt.Sprintf("bad.%d 0x 2 ", i)
}

func lines(c *hk.C, next *int64) {
	wd := newWorld(c, true, c.Pick(0, 0, 8), nil)
	l := listen(c, next, wd.w)
	if l == nil {
		return
	}
	conns := c.Pick(1, 1, 2, 4, 8)
	per := c.Pick(1, 5, 40, 200)
	badness := c.Pick(0, 1, 4, 8)

	var mu sync.Mutex
	var want []add
	var wg sync.WaitGroup
	segments := int64(0)
	for i := 0; i < conns; i++ {
		// make the stream
		var stream bytes.Buffer
		half := c.P(1, 2)
		for j := 0; j < per; j++ {
			// the listener is stopped when it has all of the well-formed lines
			// and has closed the connections that are waiting for that: what
			// it cuts off by that should not be a line that looks different.
			if c.Intn(16) < badness && (half || j < per-1) {
				line := badLine(c, j)
				if c.P(1, 40) {
					switch c.Intn(4) {
					case 3: // a later part of it alone looks well-formed
						n := c.Pick(65536*c.Range(1, 5), 65536*c.Range(1, 5), 4096*c.Range(16, 80), 65536*c.Range(1, 5)+c.Range(-3, 3))
						line = "z y x " + strings.Repeat("z", n-6) + fmt.Sprintf("tail.%d.%d 1 1", i, j)
					case 0:
						line = strings.Repeat("z", c.Pick(65536, 65537, 70000, 131072, 200001))
					case 1:
						line = strings.Repeat("z y ", c.Pick(17000, 40000))
					case 2: // the end of the line alone looks well-formed
						line = strings.Repeat("z", c.Pick(65536, 131072)) + " " + strings.Repeat("w", c.Intn(9)) + " q 1 1"
					}
					c.Count("too_long", 1)
				}
				stream.WriteString(line)
				stream.WriteByte('\n')
				c.Count("malformed", 1)
				continue
			}
			line, name, v := goodLine(c, i, j)
			want = append(want, add{metric: name, val: v})
			stream.WriteString(line)
			if c.P(1, 10) {
				stream.WriteByte('\r')
			}
			if j == per-1 && c.P(1, 2) {
				c.Count("unterminated", 1)
			} else {
				stream.WriteByte('\n')
			}
		}
		mode, seed := c.Intn(4), c.U64()
		wg.Add(1)
		go func(b []byte) {
			defer wg.Done()
			conn, err := net.Dial("tcp", l.addr)
			if err != nil {
				c.Failf("deaf", "connecting: %v", err)
				return
			}
			defer conn.Close()
			r := hk.NewRand(seed)
			for len(b) > 0 {
				n := len(b)
				switch mode {
				case 0:
				case 1:
					n = 1 + r.Intn(8)
				case 2:
					n = 1 + r.Intn(200)
				case 3:
					n = 1 + r.Intn(5000)
				}
				if mode == 1 && len(b) > 20000 {
					n = len(b) - 20000
				}
				if n > len(b) {
					n = len(b)
				}
				if _, err := conn.Write(b[:n]); err != nil {
					c.Failf("closed", "the listener closed a connection that was sending: %v", err)
					return
				}
				b = b[n:]
				atomic.AddInt64(&segments, 1)
				if r.P(1, 30) {
					time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
				}
			}
			// what was sent is handled whether the connection ends half or
			// completely.
			if half {
				conn.(*net.TCPConn).CloseWrite()
				conn.SetReadDeadline(time.Now().Add(30 * time.Second))
				io.Copy(io.Discard, conn)
			}
		}(stream.Bytes())
	}
	// others come and go, also abruptly
	if c.P(1, 3) {
		for i := 0; i < c.Range(1, 4); i++ {
			if conn, err := net.Dial("tcp", l.addr); err == nil {
				if c.P(1, 2) {
					fmt.Fprintf(conn, "partial.%d 1", i)
				}
				conn.(*net.TCPConn).SetLinger(0)
				conn.Close()
			}
		}
	}
	wg.Wait()

	// wait for everything to be handled
	wanted := 0
	for _, a := range want {
		if finite(a.val) {
			wanted++
		}
	}
	count := func() (n int) {
		wd.w.Iterate(ctx, func(ctx context.Context, metric string, r data.Record) bool {
			n += int(r.Observations)
			return true
		})
		return n
	}
	deadline := time.Now().Add(30 * time.Second)
	for count() < wanted && time.Now().Before(deadline) {
		time.Sleep(200 * time.Microsecond)
	}
	mu.Lock()
	defer mu.Unlock()
	if !l.stop(c) {
		return
	}
	got := wd.capture(0)
	compare(c, wd, got, want)
	if segments > 1 {
		c.NonTrivial()
	}
	c.Sig(conns, per, badness, len(want), segments)
	c.Sample(map[string]interface{}{"connections": conns, "lines_each": per, "segments": segments, "well_formed": len(want)})
	c.Count("observed", int64(wanted))
	c.Count("segments", segments)
	c.Count("connections", int64(conns))
}

func short(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%s...(%d)", s[:40], len(s))
	}
	return s
}

// compare checks the captured records against the lines, exactly.
func compare(c *hk.C, wd *world, got []rec, want []add) {
	exp := expect(want)
	for i := range got {
		r := &got[i]
		if msg := wd.wellFormed(r); msg != "" {
			c.Failf("malformed", "record of %q: %s", short(r.metric), msg)
			return
		}
		w, ok := exp[r.metric]
		if !ok {
			c.Failf("alien", "no well-formed line has the name %q, recorded with %v", short(r.metric), r.vals)
			return
		}
		if !sameValues(r.vals, w) {
			g := append([]float64(nil), r.vals...)
			sort.Float64s(g)
			var ws []float64
			for _, a := range w {
				ws = append(ws, a.val)
			}
			sort.Float64s(ws)
			c.Failf("values", "%q: lines with %v, recorded %v", short(r.metric), ws, g)
			return
		}
		delete(exp, r.metric)
	}
	for m, w := range exp {
		c.Failf("lost", "%d lines with the name %q, none recorded", len(w), short(m))
		return
	}
}

// stopping ends the context while clients are connected and sending.
func stopping(c *hk.C, next *int64) {
	wd := newWorld(c, true, c.Pick(0, 16), nil)
	l := listen(c, next, wd.w)
	if l == nil {
		return
	}
	conns := c.Range(1, 5)
	var wg sync.WaitGroup
	var sent int64
	begun := make(chan struct{}, conns)
	for i := 0; i < conns; i++ {
		idle := c.P(1, 4)
		partial := c.P(1, 3)
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			conn, err := net.Dial("tcp", l.addr)
			if err != nil {
				begun <- struct{}{}
				return
			}
			defer conn.Close()
			if idle {
				if partial {
					fmt.Fprintf(conn, "idle.%d ", i)
				}
				begun <- struct{}{}
			} else {
				for j := 0; ; j++ {
					conn.SetWriteDeadline(time.Now().Add(20 * time.Second))
					if _, err := fmt.Fprintf(conn, "m%d %d 1\nbad\n", i, j); err != nil {
						if ne, ok := err.(net.Error); ok && ne.Timeout() {
							c.Failf("open", "a connection was left open and unread")
						}
						break
					}
					atomic.AddInt64(&sent, 1)
					if j == 3 {
						begun <- struct{}{}
					}
				}
				return
			}
			// the listener closes the connection
			conn.SetReadDeadline(time.Now().Add(30 * time.Second))
			if _, err := conn.Read(make([]byte, 1)); err != nil {
				if ne, ok := err.(net.Error); ok && ne.Timeout() {
					c.Failf("open", "an idle connection was left open after the listener's context ended")
				}
			}
		}(i)
	}
	for i := 0; i < conns; i++ {
		<-begun
	}
	time.Sleep(time.Duration(c.Intn(1500)) * time.Microsecond)
	if !l.stop(c) {
		return
	}
	first := wd.capture(0)
	wg.Wait()
	time.Sleep(300 * time.Microsecond)
	if late := wd.capture(0); len(late) != 0 {
		c.Failf("late", "%q was recorded after the listener had returned", late[0].metric)
	}
	// what was recorded is a prefix of what every connection sent.
	for i := range first {
		r := &first[i]
		if msg := wd.wellFormed(r); msg != "" {
			c.Failf("malformed", "record of %q: %s", r.metric, msg)
			return
		}
		if !strings.HasPrefix(r.metric, "m") {
			c.Failf("alien", "no line has the name %q", r.metric)
			return
		}
		sort.Float64s(r.vals)
		for j, v := range r.vals {
			if v != float64(j) {
				c.Failf("values", "%q: the values sent are 0, 1, 2..., recorded are %v at %d", r.metric, v, j)
				return
			}
		}
	}
	// the address can be used again
	again := newWorld(c, true, 0, nil)
	cctx, cancel := context.WithCancel(ctx)
	ret := make(chan error, 1)
	go func() { ret <- graphite.New(l.addr).Run(cctx, again.w) }()
	var conn net.Conn
	deadline := time.Now().Add(20 * time.Second)
	for conn == nil && time.Now().Before(deadline) {
		select {
		case err := <-ret:
			c.Failf("address", "a second listener on the address of one that has returned: %v", err)
			cancel()
			return
		default:
		}
		conn, _ = net.Dial("tcp", l.addr)
	}
	if conn != nil {
		conn.Close()
	}
	cancel()
	<-ret
	if sent > 0 {
		c.NonTrivial()
		c.Count("stopped_while_sending", 1)
	}
	c.Sig(conns, len(first), sent)
}

// settle waits until the writer holds so many observations of valid numbers,
// stops the listener and compares.
func settle(c *hk.C, wd *world, l *listener, want []add) bool {
	wanted := 0
	for _, a := range want {
		if finite(a.val) {
			wanted++
		}
	}
	deadline := time.Now().Add(30 * time.Second)
	for time.Now().Before(deadline) {
		n := 0
		wd.w.Iterate(ctx, func(ctx context.Context, metric string, r data.Record) bool {
			n += int(r.Observations)
			return true
		})
		if n >= wanted {
			break
		}
		time.Sleep(time.Millisecond)
	}
	if !l.stop(c) {
		return false
	}
	compare(c, wd, wd.capture(0), want)
	c.Count("observed", int64(wanted))
	return true
}

// silent: clients send, are silent for a long time, in the middle of a line
// or between lines, and go on.
func silent(c *hk.C, next *int64) {
	wd := newWorld(c, true, 0, nil)
	l := listen(c, next, wd.w)
	if l == nil {
		return
	}
	pauses := []time.Duration{1500 * time.Millisecond, 6 * time.Second, 63 * time.Second}
	if c.R.Thorough() {
		pauses = append(pauses, 35*time.Second, 130*time.Second, 305*time.Second)
	}
	var want []add
	var wg sync.WaitGroup
	for i, pause := range pauses {
		for cut := 0; cut < 3; cut++ {
			conn := i*3 + cut
			a, name, v := goodLine(c, conn, 0)
			want = append(want, add{metric: name, val: v})
			b, name, v := goodLine(c, conn, 1)
			want = append(want, add{metric: name, val: v})
			text := a + "\n" + b + "\n"
			at := len(a) + 1
			switch cut {
			case 1:
				at = 0
			case 2:
				at = c.Range(1, len(text)-1)
			}
			wg.Add(1)
			go func(pause time.Duration, text string, at int) {
				defer wg.Done()
				conn, err := net.Dial("tcp", l.addr)
				if err != nil {
					c.Failf("deaf", "connecting: %v", err)
					return
				}
				defer conn.Close()
				io.WriteString(conn, text[:at])
				for t := time.Duration(0); t < pause; t += 500 * time.Millisecond {
					time.Sleep(500 * time.Millisecond)
					hk.Progress()
				}
				if _, err := io.WriteString(conn, text[at:]); err != nil {
					c.Failf("closed", "a connection that was silent for %v was closed: %v", pause, err)
				}
				c.Count("silences", 1)
			}(pause, text, at)
		}
	}
	wg.Wait()
	if settle(c, wd, l, want) {
		c.NonTrivial()
	}
	c.Sig(len(want))
}

// crowd: many clients stay connected while others send.
func crowd(c *hk.C, next *int64) {
	wd := newWorld(c, true, 0, nil)
	l := listen(c, next, wd.w)
	if l == nil {
		return
	}
	var want []add
	n := c.Pick(20, 120, 600)
	if c.Index%3 == 0 {
		n = 1300
		// with the other half of each connection, and some to spare
		var lim syscall.Rlimit
		if syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim) == nil && lim.Cur < 4000 {
			if n = int(lim.Cur)/2 - 200; n < 20 {
				n = 20
			}
		}
	}
	var conns []net.Conn
	defer func() {
		for _, conn := range conns {
			conn.Close()
		}
	}()
	for i := 0; i < n; i++ {
		conn, err := net.DialTimeout("tcp", l.addr, 20*time.Second)
		if err != nil {
			c.Failf("deaf", "connection %d: %v", i, err)
			return
		}
		conns = append(conns, conn)
		if c.P(1, 4) {
			continue
		}
		line, name, v := goodLine(c, i, 0)
		want = append(want, add{metric: name, val: v})
		if _, err := io.WriteString(conn, line+"\n"); err != nil {
			c.Failf("closed", "the listener closed connection %d: %v", i, err)
			return
		}
	}
	// all of them again, in another order
	for _, i := range c.Perm(n) {
		line, name, v := goodLine(c, i, 1)
		want = append(want, add{metric: name, val: v})
		if _, err := io.WriteString(conns[i], line+"\n"); err != nil {
			c.Failf("closed", "the listener closed connection %d: %v", i, err)
			return
		}
	}
	if settle(c, wd, l, want) {
		c.NonTrivial()
		c.R.Max("connections_at_once", int64(n))
	}
	c.Sig(n, len(want))
}

// longStream: very many lines on one connection, also very many malformed ones
// in a row.
func longStream(c *hk.C, next *int64) {
	wd := newWorld(c, true, 0, nil)
	l := listen(c, next, wd.w)
	if l == nil {
		return
	}
	conn, err := net.Dial("tcp", l.addr)
	if err != nil {
		c.Failf("deaf", "connecting: %v", err)
		return
	}
	defer conn.Close()
	n := 40000
	badness := c.Pick(0, 1, 50, 99)
	var want []add
	var b bytes.Buffer
	for i := 0; i < n; i++ {
		if i < n-100 && c.Intn(100) < badness {
			line := badLine(c, i)
			if badness == 99 && i%2 == 0 {
				line = ""
			}
			b.WriteString(line)
			c.Count("malformed", 1)
		} else {
			v, s := number(c)
			name := fmt.Sprintf("m.%d", c.Intn(300))
			want = append(want, add{metric: name, val: v})
			fmt.Fprintf(&b, "%s %s %d", name, s, i)
		}
		b.WriteByte('\n')
		if b.Len() > 30000 || i == n-1 {
			hk.Progress()
			if _, err := conn.Write(b.Bytes()); err != nil {
				c.Failf("closed", "the listener closed a connection after %d lines: %v", i, err)
				return
			}
			b.Reset()
		}
	}
	if settle(c, wd, l, want) {
		c.NonTrivial()
		c.R.Max("lines_on_a_connection", int64(n))
	}
	c.Sig("long", badness, len(want))
}

// badAddress: an address that can not be used is an error.
func badAddress(c *hk.C, next *int64) {
	w := newWorld(c, true, 0, nil)
	addr := c.PickS("nonsense", "127.0.0.1:99999", "256.1.1.1:80", "127.0.0.1:http:1", "used")
	if addr == "used" {
		lis, err := net.Listen("tcp", address(next))
		if err != nil {
			return
		}
		defer lis.Close()
		addr = lis.Addr().String()
	}
	cctx, cancel := context.WithCancel(ctx)
	defer cancel()
	ret := make(chan error, 1)
	go func() { ret <- graphite.New(addr).Run(cctx, w.w) }()
	select {
	case err := <-ret:
		if err == nil {
			c.Failf("address", "listening on %q ended without an error", addr)
		}
	case <-time.After(60 * time.Second):
		c.Failf("address", "listening on %q did not end", addr)
	}
	c.NonTrivial()
	c.Sig(addr)
}

// exhausted: for a while the process has no descriptor for another connection.
// Afterwards the clients that were waiting are served, as are the ones that
// were connected all along.
func exhausted(c *hk.C, next *int64) {
	wd := newWorld(c, true, 0, nil)
	l := listen(c, next, wd.w)
	if l == nil {
		return
	}
	var want []add
	send := func(conn net.Conn, id int) {
		for j := c.Range(1, 6); j > 0; j-- {
			line, name, v := goodLine(c, id, j)
			want = append(want, add{metric: name, val: v})
			if _, err := fmt.Fprintf(conn, "%s\n", line); err != nil {
				c.Failf("closed", "the listener closed a connection that was sending: %v", err)
			}
		}
	}
	dial := func() net.Conn {
		conn, err := net.Dial("tcp", l.addr)
		if err != nil {
			return nil
		}
		return conn
	}
	var conns []net.Conn
	for i := c.Intn(3); i > 0; i-- {
		conn := dial()
		if conn == nil {
			c.Failf("deaf", "the listener does not accept connections")
			return
		}
		conns = append(conns, conn)
		send(conn, i)
	}
	time.Sleep(time.Duration(c.Intn(4)) * time.Millisecond)

	// take every descriptor there is but those of the clients
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old); err != nil {
		panic(err)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: 100, Max: old.Max}); err != nil {
		panic(err)
	}
	undo := func() {
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old); err != nil {
			panic(err)
		}
	}
	var hogs []*os.File
	hog := func() bool {
		fh, err := os.Open("/dev/null")
		if err == nil {
			hogs = append(hogs, fh)
		}
		return err == nil
	}
	for hog() {
	}
	waiting := c.Range(1, 3)
	for i := 0; i < waiting && len(hogs) > 0; i++ {
		hogs[len(hogs)-1].Close()
		hogs = hogs[:len(hogs)-1]
		if conn := dial(); conn != nil {
			conns = append(conns, conn)
			send(conn, 10+i)
		}
	}
	time.Sleep(time.Duration(c.Pick(2, 5, 15, 40)) * time.Millisecond)
	for _, conn := range conns {
		send(conn, 20)
	}
	if !hog() {
		c.Count("exhausted", 1)
		c.NonTrivial()
	}
	for _, fh := range hogs {
		fh.Close()
	}
	undo()

	select {
	case err := <-l.ret:
		c.Failf("ended", "the listener returned when the process was out of descriptors for a moment: %v", err)
		for _, conn := range conns {
			conn.Close()
		}
		return
	default:
	}
	for _, conn := range conns {
		send(conn, 30)
	}
	if conn := dial(); conn != nil {
		conns = append(conns, conn)
		send(conn, 40)
	} else {
		c.Failf("deaf", "the listener does not accept connections any more")
	}
	for _, conn := range conns {
		conn.Close()
	}
	settle(c, wd, l, want)
	c.Sig("exhausted", len(conns), waiting, len(want))
}

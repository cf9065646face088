package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/vivint/rothko/internal/junk"
	"github.com/vivint/rothko/internal/zzverif/hk"
)

func c29(r *hk.Run) {
	r.Rule("launches of up to 12 tasks that return by themselves at once or later, or when they are told to stop, with and without errors and delays, under contexts that end before, during or never; every task records when it started, was told to stop and returned. launchers filled from several threads. flags started and stopped by many threads. contexts bound to signals. non-trivial if there were several tasks; distinct by plan and outcome")
	r.Cases("launch", r.N(10000, 300000), 8, launchCase)
	r.Cases("first", r.N(24, 300), 8, firstCase)
	r.Cases("launcher", r.N(2000, 50000), 8, launcherCase)
	r.Cases("busy launcher", r.N(300, 6000), 4, busyCase)
	r.Cases("flag", r.N(300, 10000), 4, flagCase)
	r.Cases("signal", r.N(60, 1000), 1, signalCase)
	r.Cases("busy signal", r.N(6, 40), 1, busySignal)
	r.Cases("second signal", r.N(12, 60), 6, secondCase)
	r.Require("second signals", 10)
	r.Require("tasks", 5000)
	r.Require("launches while filling", 500)
	r.Require("told to stop", 2000)
	r.Require("exact errors", 400)
	r.Require("cancelled launches", 200)
	r.Require("first errors", 10)
	r.Require("signals", 10)
	r.Require("refused starts", 200)
}

const patience = 40 * time.Second

// task is one service.
type task struct {
	id    int
	alone bool          // returns by itself
	delay time.Duration // before it returns by itself
	slow  time.Duration // after having been told to stop
	err   error

	started, told, returned int32
}

type launchState struct {
	c        *hk.C
	returned int32 // tasks that are about to return or have
	ended    int32 // the parent is about to be canceled
}

func (s *launchState) fn(t *task) func(context.Context) error {
	return func(tctx context.Context) error {
		atomic.AddInt32(&t.started, 1)
		defer func() {
			atomic.AddInt32(&t.returned, 1)
		}()
		if t.alone {
			if t.delay > 0 {
				timer := time.NewTimer(t.delay)
				defer timer.Stop()
				<-timer.C
			}
			atomic.AddInt32(&s.returned, 1)
			return t.err
		}
		select {
		case <-tctx.Done():
		case <-time.After(patience):
			s.c.Failf("not-told", "task %d was not told to stop although another has returned or the context ended", t.id)
			atomic.AddInt32(&s.returned, 1)
			return t.err
		}
		if atomic.LoadInt32(&s.returned) == 0 && atomic.LoadInt32(&s.ended) == 0 {
			s.c.Failf("early", "task %d was told to stop although no other has returned and the context did not end", t.id)
		}
		atomic.AddInt32(&t.told, 1)
		if t.slow > 0 {
			time.Sleep(t.slow)
		}
		atomic.AddInt32(&s.returned, 1)
		return t.err
	}
}

func launchCase(c *hk.C) {
	s := &launchState{c: c}
	n := c.Pick(0, 1, 2, 2, 3, 4, c.Range(2, 12))
	var tasks []*task
	alone, aloneNil := 0, 0
	style := c.Intn(4) // how likely it is to return alone
	desc := ""
	for i := 0; i < n; i++ {
		t := &task{id: i}
		switch style {
		case 0: // exactly one
			t.alone = i == 0
		case 1:
			t.alone = c.P(1, 2)
		case 2:
			t.alone = true
		}
		if c.P(1, 2) {
			t.err = fmt.Errorf("error of %d", i)
			switch c.Intn(8) {
			case 0:
				t.err = context.Canceled
			case 1:
				t.err = context.DeadlineExceeded
			case 2:
				t.err = fmt.Errorf("task %d: %w", i, context.Canceled)
			case 3:
				t.err = io.EOF
			case 4:
				t.err = http.ErrServerClosed
			}
		}
		if c.P(1, 2) {
			t.delay = time.Duration(c.Intn(2000)) * time.Microsecond
		}
		if c.P(1, 3) {
			t.slow = time.Duration(c.Intn(3000)) * time.Microsecond
		}
		if t.alone {
			alone++
			if t.err == nil {
				aloneNil++
			}
		}
		desc += fmt.Sprintf("[alone=%v err=%v]", t.alone, t.err)
		tasks = append(tasks, t)
	}
	p := c.Perm(n)
	var fns []func(context.Context) error
	for _, i := range p {
		fns = append(fns, s.fn(tasks[i]))
	}

	type key struct{}
	parent, cancel := context.WithCancel(context.WithValue(ctx, key{}, c.Index))
	defer cancel()
	how := "never"
	switch {
	case alone == 0 || c.P(1, 5):
		if c.P(1, 3) {
			how = "before"
			atomic.StoreInt32(&s.ended, 1)
			cancel()
		} else {
			how = "during"
			d := time.Duration(c.Intn(2000)) * time.Microsecond
			go func() {
				time.Sleep(d)
				atomic.StoreInt32(&s.ended, 1)
				cancel()
			}()
		}
		c.Count("cancelled launches", 1)
	}
	desc += " context ends " + how
	c.Logf("%s", desc)

	res := make(chan error, 1)
	go func() {
		err := junk.Launch(parent, fns...)
		for _, t := range tasks {
			if a, b := atomic.LoadInt32(&t.started), atomic.LoadInt32(&t.returned); a != 1 || b != 1 {
				c.Failf("unfinished", "%s: the launch returned, but task %d was started %d times and returned %d times", desc, t.id, a, b)
			}
		}
		res <- err
	}()
	var err error
	select {
	case err = <-res:
	case <-time.After(2 * patience):
		c.Failf("stuck", "%s: the launch does not return", desc)
		return
	}
	if c.Failed() {
		return
	}

	// the error
	var all, first []error
	for _, t := range tasks {
		if t.err != nil {
			all = append(all, t.err)
			if t.alone {
				first = append(first, t.err)
			}
		}
	}
	among := func(errs []error) bool {
		for _, e := range errs {
			if contains(err, e) {
				return true
			}
		}
		return false
	}
	switch {
	case len(all) == 0:
		if err != nil {
			c.Failf("error", "%s: no task failed, but the launch did: %v", desc, err)
		}
	case how == "never" && aloneNil == 0:
		// the others return because of one of these
		if !among(first) {
			c.Failf("error", "%s: the launch returned %v, should be one of %v", desc, err, first)
		}
		c.Count("exact errors", 1)
	default:
		if !among(all) {
			c.Failf("error", "%s: the launch returned %v, should be one of %v", desc, err, all)
		}
	}
	for i := 0; i < n; i++ {
		c.Count("told to stop", int64(tasks[i].told))
	}
	c.Count("tasks", int64(n))
	if n > 1 {
		c.NonTrivial()
	}
	c.Sig(desc, err)
}

// firstCase has the tasks return errors far apart.
func firstCase(c *hk.C) {
	errs := []error{errors.New("first"), errors.New("second"), errors.New("third")}
	if c.P(1, 2) {
		errs[0] = []error{context.Canceled, context.DeadlineExceeded, io.EOF, fmt.Errorf("stopped: %w", context.Canceled)}[c.Intn(4)]
	}
	nilFirst := c.P(1, 2)
	gap := 500 * time.Millisecond
	var fns []func(context.Context) error
	for i := range errs {
		i := i
		fns = append(fns, func(tctx context.Context) error {
			if i > 0 || nilFirst {
				<-tctx.Done()
			}
			time.Sleep(time.Duration(i) * gap)
			return errs[i]
		})
	}
	if nilFirst {
		fns = append(fns, func(context.Context) error { return nil })
	}
	out := make([]func(context.Context) error, len(fns))
	for i, j := range c.Perm(len(fns)) {
		out[i] = fns[j]
	}
	err := junk.Launch(ctx, out...)
	if !contains(err, errs[0]) {
		c.Failf("first", "tasks failed one after the other (after one that did not: %v), the launch returned %v instead of the first", nilFirst, err)
		return
	}
	c.Count("first errors", 1)
	c.NonTrivial()
}

// launcherCase fills launchers from several threads.
func launcherCase(c *hk.C) {
	var l junk.Launcher
	for round := c.Range(1, 3); round > 0; round-- {
		s := &launchState{c: c}
		n := c.Range(0, 8)
		tasks := make([]*task, n)
		var wg sync.WaitGroup
		for i := range tasks {
			tasks[i] = &task{id: i, alone: i == 0 || c.P(1, 3)}
			if i == 0 && c.P(1, 2) {
				tasks[i].err = errors.New("failed")
			}
			t := tasks[i]
			wg.Add(1)
			go func() {
				defer wg.Done()
				l.Queue(s.fn(t))
			}()
		}
		wg.Wait()
		for _, t := range tasks {
			if atomic.LoadInt32(&t.started) != 0 {
				c.Failf("eager", "a task was started before its launch")
				return
			}
		}
		err := l.Run(ctx)
		for _, t := range tasks {
			if t.started != 1 || t.returned != 1 {
				c.Failf("launcher", "task %d of %d was started %d times and returned %d times", t.id, n, t.started, t.returned)
				return
			}
		}
		if n > 0 && tasks[0].err != nil {
			if !contains(err, tasks[0].err) {
				c.Failf("launcher", "returned %v instead of %v", err, tasks[0].err)
				return
			}
		} else if err != nil {
			c.Failf("launcher", "returned %v", err)
			return
		}
		c.Count("tasks", int64(n))
		c.Sig(n)
		if n > 1 {
			c.NonTrivial()
		}
	}
}

// busyCase fills a launcher while it is being run.
func busyCase(c *hk.C) {
	var l junk.Launcher
	n := c.Range(5, 60)
	ran := make([]int32, n)
	fillers, runners := c.Range(1, 4), c.Range(1, 3)
	var wg sync.WaitGroup
	var filling int32 = int32(fillers)
	for f := 0; f < fillers; f++ {
		f := f
		rnd := hk.NewRand(c.U64())
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer atomic.AddInt32(&filling, -1)
			for i := f; i < n; i += fillers {
				i := i
				if rnd.P(1, 4) {
					time.Sleep(time.Duration(rnd.Intn(100)) * time.Microsecond)
				}
				l.Queue(func(context.Context) error {
					atomic.AddInt32(&ran[i], 1)
					return nil
				})
			}
		}()
	}
	for i := 0; i < runners; i++ {
		rnd := hk.NewRand(c.U64())
		wg.Add(1)
		go func() {
			defer wg.Done()
			for atomic.LoadInt32(&filling) > 0 {
				if err := l.Run(ctx); err != nil {
					c.Failf("launcher", "returned %v", err)
				}
				c.Count("launches while filling", 1)
				time.Sleep(time.Duration(rnd.Intn(50)) * time.Microsecond)
			}
		}()
	}
	wg.Wait()
	if err := l.Run(ctx); err != nil {
		c.Failf("launcher", "returned %v", err)
	}
	for i := range ran {
		if ran[i] != 1 {
			c.Failf("launcher", "task %d of %d, queued while the launcher was run, was run %d times", i, n, ran[i])
			return
		}
	}
	c.NonTrivial()
	c.Sig(n, fillers, runners)
}

// secondCase sends a process signals until one ends it.
func secondCase(c *hk.C) {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	how := []string{"signal", "cancel", "parent"}[c.Index%3]
	cmd := exec.Command(self, "-prop", "signal-child", "-out", filepath.Join(dir, "verdict"), "-scratch", dir)
	cmd.Stdin, cmd.Stderr = strings.NewReader(""), os.Stderr // the null device may not be usable
	cmd.Env = append(os.Environ(), "ENDED_BY="+how)
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	defer cmd.Process.Kill()
	line := make(chan string)
	go func() {
		defer close(line)
		var buf [1]byte
		for {
			n, err := out.Read(buf[:])
			if n > 0 {
				line <- string(buf[:n])
			}
			if err != nil {
				return
			}
		}
	}()
	expect := func(want string) bool {
		timer := time.NewTimer(patience)
		defer timer.Stop()
		for {
			select {
			case got, ok := <-line:
				if got == want {
					return true
				}
				if !ok {
					return false
				}
			case <-timer.C:
				return false
			}
		}
	}
	if !expect("1") {
		c.Failf("signal", "the process did not start")
		return
	}
	if how == "signal" {
		cmd.Process.Signal(syscall.SIGTERM)
	}
	if !expect("2") {
		c.Failf("signal", "the context did not end with its %s", how)
		return
	}
	ended := make(chan struct{})
	go func() {
		for range line {
		}
		cmd.Wait()
		close(ended)
	}()
	for deadline := time.Now().Add(patience); ; {
		select {
		case <-ended:
		case <-time.After(2 * time.Millisecond):
			if time.Now().After(deadline) {
				c.Failf("signal", "after its %s ended the context, further signals have no effect", how)
				return
			}
			cmd.Process.Signal(syscall.SIGTERM)
			continue
		}
		break
	}
	if ws := cmd.ProcessState.Sys().(syscall.WaitStatus); !ws.Signaled() || ws.Signal() != syscall.SIGTERM {
		c.Failf("signal", "a signal after the context ended (%s) did not end the process: %v", how, cmd.ProcessState)
		return
	}
	c.Count("second signals", 1)
	c.NonTrivial()
	c.Sig(c.Index, how)
}

// signalChild binds a context to a signal and hangs after the context ended.
func signalChild(r *hk.Run) {
	go func() { // it is only left behind if its parent died
		time.Sleep(3 * patience)
		os.Exit(9)
	}()
	parent, end := context.WithCancel(ctx)
	defer end()
	sctx, cancel := junk.WithSignal(parent, syscall.SIGTERM)
	defer cancel()
	os.Stdout.WriteString("1")
	switch os.Getenv("ENDED_BY") {
	case "cancel":
		cancel()
	case "parent":
		end()
	}
	<-sctx.Done()
	os.Stdout.WriteString("2")
	select {}
}

// flagCase starts and stops a flag.
func flagCase(c *hk.C) {
	var f junk.Flag
	n := c.Range(2, 8)
	for round := c.Range(1, 10); round > 0; round-- {
		var wg sync.WaitGroup
		var ok int32
		gate := make(chan struct{})
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				if f.Start() == nil {
					atomic.AddInt32(&ok, 1)
				}
			}()
		}
		close(gate)
		wg.Wait()
		if ok != 1 {
			c.Failf("flag", "%d of %d simultaneous starts succeeded", ok, n)
			return
		}
		if f.Start() == nil {
			c.Failf("flag", "a second start succeeded")
			return
		}
		c.Count("refused starts", int64(n))
		f.Stop()
	}

	// holders exclude each other
	var wg sync.WaitGroup
	var holders int32
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 50; j++ {
				if f.Start() != nil {
					continue
				}
				if atomic.AddInt32(&holders, 1) != 1 {
					c.Failf("flag", "started twice at a time")
				}
				atomic.AddInt32(&holders, -1)
				f.Stop()
			}
		}()
	}
	wg.Wait()
	c.NonTrivial()
	c.Sig(n)
}

// busySignal sends a signal right after a context was bound to it, while there
// is one processor and much else to run on it.
func busySignal(c *hk.C) {
	guard := make(chan os.Signal, 10)
	signal.Notify(guard, syscall.SIGUSR1)
	defer signal.Stop(guard)
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	parent, end := context.WithCancel(ctx)
	defer end()
	var stop int32
	var wg sync.WaitGroup
	n := c.Pick(100, 150, 200)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for until := time.Now().Add(3 * time.Millisecond); time.Now().Before(until) && atomic.LoadInt32(&stop) == 0; {
			}
		}()
	}
	sctx, cancel := junk.WithSignal(parent, syscall.SIGUSR1)
	defer cancel()
	go func() {}()
	syscall.Kill(os.Getpid(), syscall.SIGUSR1)
	select {
	case <-sctx.Done():
	case <-time.After(patience):
		c.Failf("signal", "the context did not end with a signal sent right after it was bound")
	}
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	c.Count("busy signals", 1)
	c.NonTrivial()
	c.Sig("busy", c.Index)
}

// signalCase binds contexts to signals.
func signalCase(c *hk.C) {
	// without this, a signal that is not awaited would end the process
	guard := make(chan os.Signal, 10)
	signal.Notify(guard, syscall.SIGUSR1, syscall.SIGUSR2)
	defer signal.Stop(guard)

	parent, end := context.WithCancel(ctx)
	defer end()
	sigs := []os.Signal{syscall.SIGUSR1}
	both := c.P(1, 2)
	if both {
		sigs = append(sigs, syscall.SIGUSR2)
	}
	sctx, cancel := junk.WithSignal(parent, sigs...)
	defer cancel()

	if !both {
		syscall.Kill(os.Getpid(), syscall.SIGUSR2)
		<-guard
	}
	time.Sleep(time.Duration(c.Intn(3)) * time.Millisecond)
	if sctx.Err() != nil {
		c.Failf("early", "the context ended without its signal")
		return
	}
	how := c.Intn(3)
	switch how {
	case 0:
		end()
	case 1:
		cancel()
	default:
		sig := syscall.SIGUSR1
		if both && c.P(1, 2) {
			sig = syscall.SIGUSR2
		}
		syscall.Kill(os.Getpid(), sig)
		c.Count("signals", 1)
	}
	select {
	case <-sctx.Done():
	case <-time.After(patience):
		c.Failf("signal", "the context did not end (%d)", how)
		return
	}
	if how != 0 && parent.Err() != nil {
		c.Failf("signal", "the parent ended as well")
		return
	}
	c.NonTrivial()
	c.Sig(how, both)
}

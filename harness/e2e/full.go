package main

import (
	"bufio"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/vivint/rothko/config"
	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/internal/zzverif/hk"
)

// disk is a file system of its own, in a namespace of its own that a child
// process keeps.
type disk struct {
	c    *hk.C
	path string
	dir  string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
}

// smallDisk has so many kilobytes. it returns nil if the system does not allow
// for it.
func smallDisk(c *hk.C, kb int) *disk {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	d := &disk{c: c, dir: c.R.TempDir()}
	d.cmd = exec.Command(exe, "-prop", "disk", "-scratch", os.TempDir())
	d.cmd.Env = append(os.Environ(), "DISK="+d.dir)
	d.cmd.SysProcAttr = &syscall.SysProcAttr{
		Cloneflags:  syscall.CLONE_NEWUSER | syscall.CLONE_NEWNS,
		UidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}},
		GidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}},
	}
	d.cmd.Stderr = os.Stderr
	in, err := d.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := d.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	d.in, d.out = in, bufio.NewReader(out)
	if err := d.cmd.Start(); err != nil {
		os.RemoveAll(d.dir)
		c.Count("small disks that are impossible", 1)
		return nil
	}
	d.path = fmt.Sprintf("/proc/%d/root%s", d.cmd.Process.Pid, d.dir)
	if !d.size(kb) || ioutil.WriteFile(filepath.Join(d.path, "x"), nil, 0644) != nil || os.Remove(filepath.Join(d.path, "x")) != nil {
		d.close()
		c.Count("small disks that are impossible", 1)
		return nil
	}
	return d
}

func (d *disk) size(kb int) bool {
	fmt.Fprintf(d.in, "%d\n", kb)
	line, err := d.out.ReadString('\n')
	return err == nil && line == "ok\n"
}

func (d *disk) close() {
	d.in.Close()
	d.cmd.Process.Kill()
	d.cmd.Wait()
	os.RemoveAll(d.dir)
}

// fill leaves no room, and returns how to undo that.
func (d *disk) fill() func() {
	path := filepath.Join(d.path, "hog")
	fh, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	for n := 0; n < 1<<16; n++ {
		if _, err := fh.Write(make([]byte, 1024)); err != nil {
			break
		}
	}
	fh.Close()
	return func() { os.Remove(path) }
}

// keepDisk is the child.
func keepDisk(*hk.Run) {
	dir, in, flags := os.Getenv("DISK"), bufio.NewReader(os.Stdin), uintptr(0)
	for {
		var kb int
		if _, err := fmt.Fscanln(in, &kb); err != nil {
			return
		}
		if err := syscall.Mount("none", dir, "tmpfs", flags, fmt.Sprintf("size=%dk", kb)); err != nil {
			fmt.Println(err)
			return
		}
		flags = syscall.MS_REMOUNT
		fmt.Println("ok")
	}
}

// initFull runs the init command where there is room for the file, but not for
// what is in it.
func initFull(c *hk.C) {
	d := smallDisk(c, c.Pick(4, 16, 64))
	if d == nil {
		return
	}
	defer d.close()
	undo := d.fill()
	p := launch(d.path, "init")
	defer p.kill()
	if !p.wait(60 * time.Second) {
		c.Failf("hang", "init does not end on a full disk\n%s", p.out.String())
		return
	}
	if p.err == nil {
		c.Failf("full", "init reports success on a full disk\n%s", p.out.String())
		return
	}
	names, err := ioutil.ReadDir(d.path)
	if err != nil {
		panic(err)
	}
	for _, info := range names {
		if info.Name() != "hog" {
			c.Failf("full", "init left %q with %d bytes on a full disk", info.Name(), info.Size())
			return
		}
	}
	undo()
	q := launch(d.path, "init")
	defer q.kill()
	if !q.wait(60*time.Second) || q.err != nil {
		c.Failf("full", "init fails when there is room again: %v\n%s", q.err, q.out.String())
		return
	}
	if got, err := ioutil.ReadFile(filepath.Join(d.path, "rothko.toml")); err != nil || string(got) != config.InitialConfig {
		c.Failf("full", "init wrote %q, %v", got, err)
		return
	}
	c.Count("full disks", 1)
	c.NonTrivial()
	c.Sig("init", c.Index)
}

// demoFull runs the demo where there is not enough room for its values.
func demoFull(c *hk.C) {
	d := smallDisk(c, c.Range(5, 60)*4)
	if d == nil {
		return
	}
	defer d.close()
	s := makeSetup(c, d.path, time.Hour)
	s.where = filepath.Join(d.path, "data")
	s.opts.Tuning.Drop = false
	s.opts.Size, s.opts.Cap, s.opts.Files = 1024, c.Pick(10, 100, 400), 0
	if s.comp > 20 {
		s.comp = 50
	}
	if err := ioutil.WriteFile(s.path, []byte(s.text()), 0644); err != nil {
		panic(err)
	}
	p := launch(d.path, "demo", s.path)
	defer p.kill()
	if !p.wait(75 * time.Second) {
		c.Failf("hang", "the demo does not end on a full disk\n%s\n%s", s.text(), p.out.String())
		return
	}
	if p.err == nil {
		c.Failf("lost", "the demo reports success on a full disk\n%s\n%s", s.text(), p.out.String())
		return
	}
	if crashed(p) {
		c.Failf("crash", "the demo crashes on a full disk: %v\n%s", p.err, p.out.String())
		return
	}
	c.Count("full disks", 1)
	c.NonTrivial()
	c.Sig("demo", s.opts)
}

func crashed(p *proc) bool {
	text := p.out.String()
	return strings.Contains(text, "goroutine ") && (strings.Contains(text, "panic: ") || strings.Contains(text, "fatal error: ") || strings.Contains(text, "[signal "))
}

// serveFull runs the server on a disk that is full for a while: what was
// stored before stays, and what is sent later is stored again.
func serveFull(c *hk.C) {
	d := smallDisk(c, c.Range(100, 200)*4)
	if d == nil {
		return
	}
	defer d.close()
	s := makeSetup(c, d.path, time.Duration(c.Range(40, 200))*time.Millisecond)
	s.where = filepath.Join(d.path, "data")
	s.opts.Size, s.opts.Cap, s.opts.Files = c.Pick(512, 1024), c.Pick(4, 20), 0
	s.opts.Tuning.Drop = false
	s.comp = 5
	if err := ioutil.WriteFile(s.path, []byte(s.text()), 0644); err != nil {
		panic(err)
	}
	p := s.start(c)
	if p == nil {
		return
	}
	defer p.kill()
	send := func(prefix string) map[string]int64 {
		sums := make(map[string]int64)
		var b strings.Builder
		names := c.Range(1, 5)
		for i := 0; i < 40*names; i++ {
			name := fmt.Sprintf("%s.%d", prefix, i%names)
			fmt.Fprintf(&b, "%s %d 1\n", name, c.Range(0, 100))
			sums[name]++
		}
		sn := &sender{addr: s.listeners[c.Intn(len(s.listeners))], text: []byte(b.String())}
		sn.cuts = []int{len(sn.text)}
		if sn.send(); sn.err != nil {
			c.Failf("send", "%s: %v\n%s", prefix, sn.err, p.out.String())
		}
		return sums
	}
	// shown waits until all of the metrics have a record.
	shown := func(sums map[string]int64) (out map[string][][]byte) {
		deadline := time.Now().Add(40 * time.Second)
		for {
			out = make(map[string][][]byte)
			for name := range sums {
				if recs, err := s.walk(name); err == nil && len(recs) > 0 {
					out[name] = recs
				}
			}
			if len(out) == len(sums) {
				return out
			}
			if time.Now().After(deadline) {
				c.Failf("lost", "%d of %d metrics are not stored though there is room\n%s", len(sums)-len(out), len(sums), p.out.String())
				return nil
			}
			time.Sleep(10 * time.Millisecond)
		}
	}
	first := send("first")
	if c.Failed() {
		return
	}
	before := shown(first)
	if c.Failed() {
		return
	}
	undo := d.fill()
	for i := c.Range(1, 4); i > 0 && !c.Failed(); i-- {
		send(c.PickS("second", "first"))
		time.Sleep(s.period)
	}
	time.Sleep(2 * s.period)
	if p.wait(0) {
		c.Failf("ended", "the server ended on a full disk with %v\n%s", p.err, p.out.String())
		return
	}
	if _, err := s.list(); err != nil {
		c.Failf("ended", "the API does not answer on a full disk: %v\n%s", err, p.out.String())
		return
	}
	again := shown(first)
	undo()
	third := send("third")
	if c.Failed() {
		return
	}
	later := shown(third)
	if c.Failed() || !s.interrupt(c, p) {
		return
	}
	all, ok := s.stored(c)
	if !ok {
		return
	}
	for _, was := range []map[string][][]byte{before, again, later} {
		for name, raws := range was {
			have := make(map[string]bool)
			for _, raw := range all[name] {
				have[string(raw)] = true
			}
			for _, raw := range raws {
				if !have[string(raw)] {
					c.Failf("lost", "a record of %q that was shown is gone", name)
					return
				}
			}
		}
	}
	for name, n := range third {
		total := int64(0)
		for _, raw := range all[name] {
			var rec data.Record
			if err := rec.Unmarshal(raw); err != nil {
				c.Failf("read", "%q: %v", name, err)
				return
			}
			total += rec.Observations
		}
		// a dump in the middle may have lost one
		if total > n || total < n-20 {
			c.Failf("lost", "%d observations of %q were handled after there was room again, %d are stored", n, name, total)
			return
		}
	}
	c.Count("full disks", 1)
	c.NonTrivial()
	c.Sig("serve", s.opts, s.period, len(before))
}

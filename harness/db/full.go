package main

import (
	"context"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/vivint/rothko/internal/zzverif/hk"
)

// fullDisk runs a database in a child process that has a small file system of
// its own, which becomes full now and then. It only says so if the system does
// not allow for that.
func fullDisk(c *hk.C) {
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	seed := c.U64()
	cmd := exec.Command(exe, "-prop", "full-child")
	cmd.Env = append(os.Environ(), "FULL_DIR="+dir, "FULL_SEED="+strconv.FormatUint(seed, 10))
	cmd.SysProcAttr = &syscall.SysProcAttr{
		Cloneflags:  syscall.CLONE_NEWUSER | syscall.CLONE_NEWNS,
		UidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}},
		GidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}},
		Pdeathsig:   syscall.SIGKILL,
	}
	var stderr strings.Builder
	cmd.Stdin, cmd.Stderr = strings.NewReader(""), &stderr
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := cmd.Start(); err != nil {
		c.Count("full_disk_impossible", 1)
		return
	}
	timer := time.AfterFunc(60*time.Second, func() { cmd.Process.Signal(syscall.SIGQUIT) })
	data, _ := ioutil.ReadAll(out)
	err = cmd.Wait()
	timer.Stop()
	lines := strings.Split(strings.TrimSpace(string(data)), "\n")
	for i, line := range lines {
		switch {
		case line == "impossible":
			c.Count("full_disk_impossible", 1)
			return
		case strings.HasPrefix(line, "bad "):
			for _, before := range lines[max(0, i-40):i] {
				c.Logf("%s", before)
			}
			c.Failf("full", "%s", line[4:])
			return
		}
	}
	if last := lines[len(lines)-1]; err != nil || !strings.HasPrefix(last, "done ") {
		for _, before := range lines[max(0, len(lines)-40):] {
			c.Logf("%s", before)
		}
		text := stderr.String()
		if len(text) > 1500 {
			text = text[:1500]
		}
		c.Failf("full", "the process did not survive a full disk: %v, %s", err, text)
		return
	}
	var refused, accepted int64
	fmt.Sscanf(lines[len(lines)-1], "done %d %d", &refused, &accepted)
	c.Count("full_disk_errors", refused)
	c.Count("full_disk_values", accepted)
	if refused > 0 && accepted > 0 {
		c.NonTrivial()
	}
	c.Sig("full", refused, accepted)
}

func fullChild(*hk.Run) {
	dir := os.Getenv("FULL_DIR")
	seed, _ := strconv.ParseUint(os.Getenv("FULL_SEED"), 10, 64)
	r := hk.NewRand(seed)
	if err := syscall.Mount("none", dir, "tmpfs", 0, fmt.Sprintf("size=%dk", r.Range(10, 60)*4)); err != nil {
		fmt.Println("impossible")
		return
	}
	bad := func(format string, args ...interface{}) {
		fmt.Printf("bad "+format+"\n", args...)
		os.Exit(0)
	}
	cf := conf{Size: []int{100, 1024, 4096, 5000}[r.Intn(4)], Cap: r.Range(1, 6), Workers: r.Range(1, 2), Handles: []int{-1, 1, 8}[r.Intn(3)]}
	n := start(filepath.Join(dir, "db"), cf)
	names := []string{"a", "b", "a.b", "c.d"}[:r.Range(1, 4)]
	stored := map[string][]value{}
	now := int64(0)
	refused, accepted := 0, 0
	fmt.Printf("%+v %q\n", cf, names)
	put := func(full bool) bool {
		name := names[r.Intn(len(names))]
		v := value{now, now + 1, r.Bytes(r.Range(0, cf.bytes()))}
		now++
		a := n.put(name, v.start, v.end, v.data)
		fmt.Printf("put %q %v: %v\n", name, v, a)
		switch {
		case a.ok && a.err == nil:
			stored[name] = append(stored[name], v)
			accepted++
		case a.err != nil && !a.ok && full:
			refused++
		default:
			bad("put of %v to %q was answered %v", v, name, a)
		}
		return a.ok
	}
	check := func(when string) {
		for _, name := range names {
			got, err := n.read(name, maxTime)
			want := stored[name]
			if err != nil && len(want) > 0 || len(got) != len(want) {
				bad("%s: query of %q returned %d of %d values, and %v", when, name, len(got), len(want), err)
			}
			for i, v := range got {
				if w := want[len(want)-1-i]; !v.same(w) {
					bad("%s: query of %q returned %v instead of %v", when, name, v, w)
				}
			}
		}
		listed, err := n.list()
		for _, name := range names {
			if err != nil || len(stored[name]) > 0 && !contains(listed, name) {
				bad("%s: the listing %q (%v) does not have %q", when, listed, err, name)
			}
		}
	}
	hog := filepath.Join(dir, "hog")
	for round := 0; round < 3; round++ {
		// others take some or all of the room
		fh, err := os.Create(hog)
		if err != nil {
			bad("hog: %v", err)
		}
		limit := r.Range(0, 60) * 4096
		for size := 0; size < limit || round == 1; size += 1024 {
			if _, err := fh.Write(make([]byte, 1024)); err != nil {
				break
			}
		}
		fh.Close()
		errors := 0
		for i := 0; i < 400 && errors < 12; i++ {
			if !put(true) {
				errors++
			}
		}
		check("while the disk is full")
		if r.P(1, 3) {
			n.stop()
			n = start(filepath.Join(dir, "db"), cf)
			if err := n.PopulateMetrics(context.Background()); err != nil {
				bad("walk on a full disk: %v", err)
			}
			check("after a restart on a full disk")
		}
		os.Remove(hog)
		// if the database took all of it, it stays full
		if errors == 12 && round > 0 && limit > 40*4096 {
			put(true)
		}
	}
	// with more room
	if err := syscall.Mount("none", dir, "tmpfs", syscall.MS_REMOUNT, "size=4m"); err != nil {
		fmt.Println("impossible")
		return
	}
	for i := 0; i < 20; i++ {
		put(false)
	}
	check("with enough room")
	for f := range readImage(filepath.Join(dir, "db")) {
		if !strings.HasSuffix(f, ".data") && !strings.HasSuffix(f, "/") {
			bad("the file %q was left by a failed creation", f)
		}
	}
	n.stop()
	if maps, fds := held(dir); maps > 0 || fds > 0 {
		bad("after stopping %d mappings and %d descriptors are held", maps, fds)
	}
	fmt.Printf("done %d %d\n", refused, accepted)
}

// manyFiles has a child process use more data files than a process can map.
func manyFiles(c *hk.C) {
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	run := func(attr *syscall.SysProcAttr) (string, string, error) {
		cmd := exec.Command(exe, "-prop", "many-child")
		cmd.Env = append(os.Environ(), "MANY_DIR="+dir, "MANY_SEED="+strconv.FormatUint(c.U64(), 10))
		cmd.SysProcAttr = attr
		var stdout, stderr strings.Builder
		cmd.Stdin, cmd.Stdout, cmd.Stderr = strings.NewReader(""), &stdout, &stderr
		if err := cmd.Start(); err != nil {
			return "impossible\n", "", err
		}
		timer := time.AfterFunc(200*time.Second, func() { cmd.Process.Signal(syscall.SIGQUIT) })
		ended := make(chan struct{})
		go func() { // the child has a limit of its own
			for {
				select {
				case <-ended:
					return
				case <-time.After(5 * time.Second):
					hk.Progress()
				}
			}
		}()
		err := cmd.Wait()
		timer.Stop()
		close(ended)
		return stdout.String(), stderr.String(), err
	}
	data, text, err := run(&syscall.SysProcAttr{
		Cloneflags:  syscall.CLONE_NEWUSER | syscall.CLONE_NEWNS,
		UidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}},
		GidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}},
		Pdeathsig:   syscall.SIGKILL,
	})
	if data == "impossible\n" { // it takes longer, but does as well
		data, text, err = run(&syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL})
	}
	for _, line := range strings.Split(data, "\n") {
		switch {
		case line == "limitless":
			c.Count("many_limitless", 1)
			return
		case strings.HasPrefix(line, "bad "):
			c.Failf("many", "%s", line[4:])
			return
		case strings.HasPrefix(line, "done "):
			var metrics, mapped int64
			fmt.Sscanf(line, "done %d %d", &metrics, &mapped)
			c.Count("many_metrics", metrics)
			c.Count("many_mapped", mapped)
			c.NonTrivial()
			c.Sig("many", metrics)
			return
		}
	}
	if len(text) > 1500 {
		text = text[:1500]
	}
	c.Failf("many", "the process did not survive to use more data files than it can map: %v, %s", err, text)
}

func manyChild(*hk.Run) {
	dir := os.Getenv("MANY_DIR")
	seed, _ := strconv.ParseUint(os.Getenv("MANY_SEED"), 10, 64)
	r := hk.NewRand(seed)
	syscall.Mount("none", dir, "tmpfs", 0, "size=2g") // it takes longer without
	text, err := ioutil.ReadFile("/proc/sys/vm/max_map_count")
	limit, err2 := strconv.Atoi(strings.TrimSpace(string(text)))
	if err != nil || err2 != nil || limit > 150000 {
		fmt.Println("limitless")
		return
	}
	bad := func(format string, args ...interface{}) {
		fmt.Printf("bad "+format+"\n", args...)
		os.Exit(0)
	}

	// metrics that have the same value share their files, until written to
	cf := conf{Size: 100, Cap: 1, Files: 0, Workers: 2, Handles: 1 << 20}
	root := filepath.Join(dir, "db")
	metrics := limit + r.Range(300, 3000)
	name := func(i int) string { return fmt.Sprintf("m%d.n%d", i/250, i%250) }
	v := value{0, 1, []byte("shared")}
	n := start(root, cf)
	for i := 0; i < metrics; i++ {
		if i%5000 == 0 {
			if a := n.put(name(i), v.start, v.end, v.data); !a.ok {
				bad("value of %q was answered %+v", name(i), a)
			}
		}
	}
	n.stop()
	n = start(root, cf)
	path := func(i int) string { return fmt.Sprintf("%s/m%d/n%d", root, i/250, i%250) }
	for i := 0; i < metrics; i++ {
		if i%5000 == 0 {
			continue
		}
		if err := os.MkdirAll(path(i), 0755); err != nil {
			bad("preparing: %v", err)
		}
		if err := os.Link(path(i-i%5000)+"/1.data", path(i)+"/1.data"); err != nil {
			bad("preparing: %v", err)
		}
	}
	for i := 0; i < metrics; i++ {
		start, end, data, err := n.QueryLatest(context.Background(), name(i), nil)
		if got := (value{start, end, data}); err != nil || !got.same(v) {
			bad("latest value of metric %d of %d is %v (%v) instead of %v", i, metrics, got, err, v)
		}
		if i%200 == 0 { // each of these needs a file of its own, and room for it
			own := fmt.Sprintf("own%d", i)
			for end := int64(1); end < 3; end++ {
				if a := n.put(own, end-1, end, []byte(own)); !a.ok {
					bad("value of %q, with %d metrics in use, was answered %+v", own, i, a)
				}
			}
		}
	}
	mapped, _ := held(dir)
	for i := 0; i < metrics; i += 1 + r.Intn(200) {
		if got, err := n.read(name(i), maxTime); err != nil || len(got) != 1 || !got[0].same(v) {
			bad("values of metric %d of %d are %v (%v) instead of %v", i, metrics, got, err, v)
		}
	}
	n.stop()
	if maps, fds := held(dir); maps > 0 || fds > 0 {
		bad("after stopping %d mappings and %d descriptors are held", maps, fds)
	}
	fmt.Printf("done %d %d\n", metrics, mapped)
}

import sys; sys.path.insert(0,'/tmp/plant')
SEEDS=[
dict(id='c11-sparse', property='C11', needs='a file system that becomes full while a data file is created',
 breaks='the creation succeeds without room for the file, and the process dies of a fault in the mapping when it writes the value',
 edits=[('database/files/internal/system/alloc_linux.go',"	const mode = 0\n	if err := syscall.Fallocate(fd, mode, 0, length); err != nil {","	if err := syscall.Ftruncate(fd, length); err != nil {")],
 demo_sh='''#!/bin/bash
# exit 0: the property held; otherwise it did not
export HOME="${HOME:-/root}" PATH="$PATH:/usr/local/bin:/usr/bin:/bin"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 9
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
printf '{"Replace":{"%s/database/files/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -c -vet=off -overlay "$tmp/overlay.json" -o "$tmp/demo" ./database/files || exit 1
mkdir "$tmp/disk"
# a small file system of its own, that ends with the namespace
unshare -Urm bash -c 'mount -t tmpfs -o size=40k none "$1/disk" || exit 7; DEMO_DIR="$1/disk" "$1/demo" -test.run "^TestDemo$" -test.timeout 100s' demo "$tmp"
''', demo='''package files_test

import (
	"context"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/vivint/rothko/database/files"
)

func TestDemo(t *testing.T) {
	dir := filepath.Join(os.Getenv("DEMO_DIR"), "db")
	db := files.New(dir, files.Options{Size: 1024, Cap: 6, Files: 10, Tuning: files.Tuning{Buffer: 4, Workers: 1, Handles: 2}})
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan error, 1)
	go func() { done <- db.Run(ctx) }()
	put := func(end int64) (ok bool, err error) {
		ch := make(chan bool)
		db.Queue(ctx, "m", end-1, end, []byte("value"), func(o bool, e error) {
			ok, err = o, e
			close(ch)
		})
		select {
		case <-ch:
		case <-time.After(20 * time.Second):
			t.Fatal("no answer")
		}
		return ok, err
	}
	failed := 0
	for end := int64(1); end < 60; end++ {
		if ok, err := put(end); err != nil {
			failed++
		} else if !ok {
			t.Fatal("a value was dropped")
		}
	}
	if failed == 0 {
		t.Fatal("the disk never was full")
	}
	if _, _, data, err := db.QueryLatest(ctx, "m", nil); err != nil || string(data) != "value" {
		t.Fatalf("%q %v", data, err)
	}
	cancel()
	<-done
}
'''),
]

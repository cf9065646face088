RUN='run.go'; REG='registry/registry.go'; DEMO='demo.go'
SH='''#!/bin/bash
# exit 0: the property held; otherwise it did not
export HOME="${HOME:-/root}" PATH="$PATH:/usr/local/bin:/usr/bin:/bin"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 9
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
printf '{"Replace":{"%s/internal/zzdemo/plug.go":"%s/plug.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go build -o "$tmp/rothko" ./bin/rothko || exit 8
go build -buildmode=plugin -overlay "$tmp/overlay.json" -o "$tmp/plug.so" ./internal/zzdemo || exit 8
'''
HEAD='''package main

import (
	"context"
	"fmt"
	"os"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/listener"
	"github.com/vivint/rothko/registry"
)

func main() {}

func say(format string, args ...interface{}) {
	fh, err := os.OpenFile(os.Getenv("DEMO_LOG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		panic(err)
	}
	fmt.Fprintf(fh, format+"\\n", args...)
	fh.Close()
}

var _ = time.Second

type db struct{ database.DB }

type lis struct{}

func init() {
	registry.RegisterDatabase(DBNAME, registry.DatabaseMakerFunc(func(ctx context.Context, config interface{}) (database.DB, error) {
		say("made")
		return db{}, nil
	}))
	registry.RegisterListener("demo", registry.ListenerMakerFunc(func(ctx context.Context, config interface{}) (listener.Listener, error) {
		return lis{}, nil
	}))
}

func (db) Run(ctx context.Context) error {
	<-ctx.Done()
	say("stopped")
	return nil
}

func (db) Metrics(ctx context.Context, cb func(string) (bool, error)) error { return nil }
'''
CONF='''cat > "$tmp/c.toml" <<X
[main]
duration = "1h"
plugins = [PLUGINS]
[[listeners.demo]]
[database.DBNAME]
[dist.tdigest]
compression = 5.0
[api]
address = "127.0.0.1:0"
X
export DEMO_LOG="$tmp/log"
touch "$tmp/log"
cd "$tmp"
'''
SEEDS=[
dict(id='c33-plugin-missing', property='C33', needs='a configured plugin that can not be loaded',
 breaks='a plugin that can not be loaded is only logged, and the program starts with whatever is registered under the names',
 edits=[(RUN,"		_, err := plugin.Open(path)\n		if err != nil {\n			return false, errs.Wrap(err)\n		}","		if _, err := plugin.Open(path); err != nil {\n			external.Errorw(\"plugin not loaded\",\n				\"plugin\", path,\n				\"err\", err.Error(),\n			)\n		}")],
 files={'plug.go':HEAD.replace('DBNAME','"demo"')+'''
func (lis) Run(ctx context.Context, w *data.Writer) error { return nil }

func (db) Queue(ctx context.Context, metric string, start, end int64, data []byte, cb func(bool, error)) error {
	cb(true, nil)
	return nil
}
'''},
 demo_sh=SH+CONF.replace('DBNAME','demo').replace('PLUGINS','"$tmp/plug.so", "$tmp/other.so"')+'''
timeout -k 5 60 "$tmp/rothko" run c.toml > out 2>&1 && { echo "starts without one of its plugins"; cat log; exit 1; }
[ -s log ] && { echo "the database was made"; exit 1; }
exit 0
'''),
dict(id='c33-early-end', property='C33', needs='a listener that comes to its end by itself, without an error',
 breaks='the last dump is only taken after an interrupt, so that what was added is lost if the program ends because a part of it ended',
 edits=[(RUN,"		if err := launcher.Run(sigint_ctx); err != nil {\n			return err\n		}\n","		if err := launcher.Run(sigint_ctx); err != nil || sigint_ctx.Err() == nil {\n			return err\n		}\n")],
 files={'plug.go':HEAD.replace('DBNAME','"demo"')+'''
func (lis) Run(ctx context.Context, w *data.Writer) error {
	w.Add(ctx, "metric", 1, nil)
	return nil
}

func (db) Queue(ctx context.Context, metric string, start, end int64, data []byte, cb func(bool, error)) error {
	say("stored %s", metric)
	cb(true, nil)
	return nil
}
'''},
 demo_sh=SH+CONF.replace('DBNAME','demo').replace('PLUGINS','"$tmp/plug.so"')+'''
timeout -k 5 60 "$tmp/rothko" run c.toml > out 2>&1 || { echo "fails"; cat out; exit 1; }
cat log
grep -q "^stored metric$" log
'''),
dict(id='c33-builtin-first', property='C33', needs='a plugin that replaces an existing kind of database',
 breaks='the first registration under a name is kept, so that plugins can not replace what is built in',
 edits=[(REG,"	r.databases[name] = maker\n","	if _, ok := r.databases[name]; !ok {\n		r.databases[name] = maker\n	}\n")],
 files={'plug.go':HEAD.replace('DBNAME','"files"')+'''
func (lis) Run(ctx context.Context, w *data.Writer) error { return nil }

func (db) Queue(ctx context.Context, metric string, start, end int64, data []byte, cb func(bool, error)) error {
	cb(true, nil)
	return nil
}
'''},
 demo_sh=SH+CONF.replace('DBNAME','files').replace('PLUGINS','"$tmp/plug.so"')+'''
timeout -k 5 60 "$tmp/rothko" run c.toml > out 2>&1
cat log
grep -q "^made$" log
'''),
dict(id='c33-late-answers', property='C33', needs='a database that answers the values of the last dump some time after they were queued',
 breaks='the database is told to stop together with the listeners, so that it is not there any more for the answers of the last dump',
 edits=[(RUN,"	parent.Queue(func(ctx context.Context) error {\n		external.Infow(\"starting database\"","	launcher.Queue(func(ctx context.Context) error {\n		external.Infow(\"starting database\"")],
 files={'plug.go':HEAD.replace('DBNAME','"demo"')+'''
func (lis) Run(ctx context.Context, w *data.Writer) error {
	w.Add(ctx, "metric", 1, nil)
	return nil
}

func (db) Queue(ctx context.Context, metric string, start, end int64, data []byte, cb func(bool, error)) error {
	go func() {
		time.Sleep(time.Second)
		say("answered")
		cb(true, nil)
	}()
	return nil
}
'''},
 demo_sh=SH+CONF.replace('DBNAME','demo').replace('PLUGINS','"$tmp/plug.so"')+'''
timeout -k 5 60 "$tmp/rothko" run c.toml > out 2>&1 || { echo "fails"; cat out; exit 1; }
cat log
[ "$(tail -1 log)" = stopped ]
'''),
]

// A plugin for the program, which keeps a log of everything that happens to it.
package main

import (
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/external"
	"github.com/vivint/rothko/listener"
	"github.com/vivint/rothko/registry"
)

func main() {}

var logfile *os.File

// event writes a line to the log, at once.
func event(what string, keyvals ...interface{}) {
	m := map[string]interface{}{"what": what, "plugin": name}
	for i := 0; i+1 < len(keyvals); i += 2 {
		m[fmt.Sprint(keyvals[i])] = keyvals[i+1]
	}
	line, err := json.Marshal(m)
	if err != nil {
		line, _ = json.Marshal(map[string]interface{}{"what": "broken", "plugin": name, "err": err.Error()})
	}
	logfile.Write(append(line, '\n'))
}

// PLUG_a and PLUG_b tell what the plugins register.
func init() {
	var err error
	logfile, err = os.OpenFile(os.Getenv("PLUG_LOG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		panic(err)
	}
	event("load")
	for _, part := range strings.Fields(os.Getenv("PLUG_" + name)) {
		kind := part[strings.Index(part, ":")+1:]
		switch part[:strings.Index(part, ":")] {
		case "db":
			registry.RegisterDatabase(kind, registry.DatabaseMakerFunc(makeDB))
		case "dist":
			registry.RegisterDistribution(kind, registry.DistributionMakerFunc(func(ctx context.Context, config interface{}) (dist.Params, error) {
				return makeParams(kind, config)
			}))
		case "listener":
			registry.RegisterListener(kind, registry.ListenerMakerFunc(makeListener))
		case "external":
			external.Default = external.Resources{Logger: PlugSink{}, Monitor: PlugSink{}}
		}
	}
}

type settings map[string]interface{}

func (s settings) num(key string) int64 {
	n, _ := s[key].(int64)
	return n
}

func (s settings) str(key string) string {
	v, _ := s[key].(string)
	return v
}

func (s settings) failed() error {
	if s.str("fail") == "make" {
		return errors.New("as configured")
	}
	return nil
}

func convert(config interface{}) settings {
	m, _ := config.(map[string]interface{})
	return m
}

// PlugSink is told what is logged and observed.
type PlugSink struct{}

func (PlugSink) Infow(msg string, keyvals ...interface{})  { event("info") }
func (PlugSink) Errorw(msg string, keyvals ...interface{}) { event("error", "msg", msg) }
func (PlugSink) Observe(name string, value float64)        { event("observe", "name", name, "value", value) }

// PlugDB keeps values in memory.
type PlugDB struct {
	set   settings
	mu    sync.Mutex
	vals  map[string][]plugValue
	names []string
	count int64
}

type plugValue struct {
	start, end int64
	data       []byte
}

func makeDB(ctx context.Context, config interface{}) (database.DB, error) {
	event("make-db", "config", config)
	p := &PlugDB{set: convert(config), vals: map[string][]plugValue{}}
	for i := int64(0); i < p.set.num("kept"); i++ {
		// the API can only draw these
		digest, err := tdigest.Params{Compression: 5}.New()
		if err != nil {
			return nil, err
		}
		digest.Observe(float64(i))
		rec := data.Record{StartTime: 1000 + i, EndTime: 1001 + i, Observations: 1, Distribution: digest.Marshal(nil), Kind: "tdigest", Merged: 1}
		raw, err := rec.Marshal()
		if err != nil {
			return nil, err
		}
		p.put(fmt.Sprintf("kept.%d", i%3), rec.StartTime, rec.EndTime, raw)
	}
	return p, p.set.failed()
}

func (p *PlugDB) put(metric string, start, end int64, data []byte) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(p.vals[metric]) == 0 {
		p.names = append(p.names, metric)
	}
	p.vals[metric] = append(p.vals[metric], plugValue{start, end, append([]byte(nil), data...)})
}

func (p *PlugDB) get(metric string) []plugValue {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.vals[metric]
}

func (p *PlugDB) Run(ctx context.Context) error {
	event("run-db")
	var timer <-chan time.Time
	if ms := p.set.num("end_ms"); ms > 0 {
		timer = time.After(time.Duration(ms) * time.Millisecond)
	}
	select {
	case <-timer:
	case <-ctx.Done():
		event("cancel-db")
	}
	defer event("end-db")
	if p.set.str("fail") == "run" {
		return errors.New("as configured")
	}
	return nil
}

func (p *PlugDB) Queue(ctx context.Context, metric string, start, end int64, data []byte, cb func(bool, error)) error {
	p.mu.Lock()
	n := p.count
	p.count++
	p.mu.Unlock()
	raw := append([]byte(nil), data...)
	event("queue", "n", n, "metric", metric, "start", start, "end", end, "data", raw)
	every := p.set.num("refuse")
	answer := func() {
		if string(raw) != string(data) {
			event("broken", "err", "the data of a value changed before it was answered")
		}
		if every > 0 && n%every == every-1 {
			event("answer", "n", n, "written", false)
			cb(false, errors.New("as configured"))
			return
		}
		p.put(metric, start, end, raw)
		event("answer", "n", n, "written", true)
		cb(true, nil)
	}
	if us := p.set.num("late_us"); us > 0 {
		go func() {
			time.Sleep(time.Duration(us) * time.Microsecond)
			answer()
		}()
		return nil
	}
	answer()
	return nil
}

func (p *PlugDB) Query(ctx context.Context, metric string, end int64, buf []byte, cb database.ResultCallback) error {
	vals := p.get(metric)
	for i := len(vals) - 1; i >= 0; i-- {
		if vals[i].end >= end {
			continue
		}
		if ok, err := cb(ctx, vals[i].start, vals[i].end, vals[i].data); !ok || err != nil {
			return err
		}
	}
	return nil
}

func (p *PlugDB) QueryLatest(ctx context.Context, metric string, buf []byte) (start, end int64, data []byte, err error) {
	vals := p.get(metric)
	if len(vals) == 0 {
		return 0, 0, nil, nil
	}
	v := vals[len(vals)-1]
	return v.start, v.end, v.data, nil
}

func (p *PlugDB) Metrics(ctx context.Context, cb func(name string) (bool, error)) error {
	p.mu.Lock()
	names := append([]string(nil), p.names...)
	p.mu.Unlock()
	for _, name := range names {
		if ok, err := cb(name); !ok || err != nil {
			return err
		}
	}
	return nil
}

// PlugParams makes distributions that keep every value.
type PlugParams struct{ kind string }

func makeParams(kind string, config interface{}) (dist.Params, error) {
	event("make-dist", "config", config)
	return PlugParams{kind}, convert(config).failed()
}

func (p PlugParams) Kind() string            { return p.kind }
func (p PlugParams) New() (dist.Dist, error) { return &PlugDist{kind: p.kind}, nil }
func (p PlugParams) Unmarshal(data []byte) (dist.Dist, error) {
	d := &PlugDist{kind: p.kind}
	for ; len(data) >= 8; data = data[8:] {
		d.vals = append(d.vals, math.Float64frombits(binary.LittleEndian.Uint64(data)))
	}
	return d, nil
}

type PlugDist struct {
	kind string
	vals []float64
}

func (d *PlugDist) Kind() string        { return d.kind }
func (d *PlugDist) Len() int64          { return int64(len(d.vals)) }
func (d *PlugDist) Observe(val float64) { d.vals = append(d.vals, val) }
func (d *PlugDist) Marshal(buf []byte) []byte {
	return append(buf, encode(d.vals)...)
}

func (d *PlugDist) sorted() []float64 {
	s := append([]float64(nil), d.vals...)
	sort.Float64s(s)
	return s
}

func (d *PlugDist) Query(x float64) float64 {
	s := d.sorted()
	if len(s) == 0 {
		return 0
	}
	return s[int(x*float64(len(s)-1))]
}

func (d *PlugDist) CDF(x float64) float64 {
	s := d.sorted()
	if len(s) == 0 {
		return 0
	}
	return float64(sort.SearchFloat64s(s, x)) / float64(len(s))
}

func encode(vals []float64) (out []byte) {
	for _, v := range vals {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], math.Float64bits(v))
		out = append(out, b[:]...)
	}
	return out
}

// PlugListener adds values that are all different.
type PlugListener struct{ set settings }

func makeListener(ctx context.Context, config interface{}) (listener.Listener, error) {
	event("make-listener", "config", config)
	p := &PlugListener{convert(config)}
	return p, p.set.failed()
}

func (p *PlugListener) Run(ctx context.Context, w *data.Writer) error {
	id := p.set.num("id")
	event("run-listener", "id", id)
	var wg sync.WaitGroup
	hands := p.set.num("hands")
	for h := int64(0); h < hands; h++ {
		h := h
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := int64(0); i < p.set.num("values"); i++ {
				w.Add(ctx, fmt.Sprintf("m.%d", (h+i)%p.set.num("metrics")), float64(id*1000000+h*100000+i), nil)
				if us := p.set.num("pace_us"); us > 0 && i%16 == 0 {
					time.Sleep(time.Duration(us) * time.Microsecond)
				}
			}
		}()
	}
	wg.Wait()
	event("added", "id", id)
	switch p.set.str("end") {
	case "early":
	default:
		<-ctx.Done()
		event("cancel-listener", "id", id)
		// it still has something to add
		for i := int64(0); i < p.set.num("late"); i++ {
			w.Add(ctx, "late", float64(id*1000000+900000+i), nil)
		}
	}
	event("end-listener", "id", id)
	if p.set.str("fail") == "run" {
		return errors.New("as configured")
	}
	return nil
}

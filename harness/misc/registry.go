package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sync"
	"sync/atomic"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/internal/zzverif/hk"
	"github.com/vivint/rothko/listener"
	"github.com/vivint/rothko/registry"
)

func c28(r *hk.Run) {
	r.Rule("histories of registrations and constructions of the three kinds under few names in registries of their own and in the default one, compared with maps; makers that register and construct themselves; storms of threads registering and constructing, where what every construction used is compared with the registrations that were current while it ran. non-trivial if something was constructed; distinct by history")
	r.Cases("history", r.N(8000, 200000), 8, historyCase)
	r.Cases("storm", r.N(300, 10000), 2, stormCase)
	r.Cases("nested", r.N(200, 5000), 4, nestedCase)
	r.Require("constructed", 10000)
	r.Require("unregistered", 500)
	r.Require("maker errors", 500)
	r.Require("storm constructions", 20000)
	r.Require("nested constructions", 500)
}

// thing is what the makers make, whatever the kind.
type thing struct {
	kind, id int
}

func (thing) Run(ctx context.Context) error { return nil }

type PlugListener struct{ thing }

func (PlugListener) Run(ctx context.Context, w *data.Writer) error { return nil }

type PlugDatabase struct{ thing }

func (PlugDatabase) Query(ctx context.Context, metric string, end int64, buf []byte, cb database.ResultCallback) error {
	return nil
}
func (PlugDatabase) QueryLatest(ctx context.Context, metric string, buf []byte) (int64, int64, []byte, error) {
	return 0, 0, nil, nil
}
func (PlugDatabase) Metrics(ctx context.Context, cb func(name string) (bool, error)) error {
	return nil
}
func (PlugDatabase) Queue(ctx context.Context, metric string, start int64, end int64, data []byte, cb func(bool, error)) error {
	return nil
}

type PlugParams struct{ thing }

func (PlugParams) Kind() string            { return "plug" }
func (PlugParams) New() (dist.Dist, error) { return nil, nil }
func (PlugParams) Unmarshal(data []byte) (dist.Dist, error) {
	return nil, nil
}

const kinds = 3

// maker is a registration.
type maker struct {
	kind, id int
	fail     error
	calls    int64
	inside   func() // something to do while making

	mu     sync.Mutex
	ctx    context.Context
	config interface{}
}

func (m *maker) call(kind int, ctx context.Context, config interface{}) {
	if kind != m.kind {
		panic("harness: wrong kind")
	}
	atomic.AddInt64(&m.calls, 1)
	m.mu.Lock()
	m.ctx, m.config = ctx, config
	m.mu.Unlock()
	if m.inside != nil {
		m.inside()
	}
}

// api is a registry, or the functions that use the default one.
type reg interface {
	RegisterListener(name string, maker registry.ListenerMaker)
	NewListener(ctx context.Context, name string, config interface{}) (listener.Listener, error)
	RegisterDatabase(name string, maker registry.DatabaseMaker)
	NewDatabase(ctx context.Context, name string, config interface{}) (database.DB, error)
	RegisterDistribution(name string, maker registry.DistributionMaker)
	NewDistribution(ctx context.Context, name string, config interface{}) (dist.Params, error)
}

type defaultReg struct{}

func (defaultReg) RegisterListener(name string, maker registry.ListenerMaker) {
	registry.RegisterListener(name, maker)
}
func (defaultReg) NewListener(ctx context.Context, name string, config interface{}) (listener.Listener, error) {
	return registry.NewListener(ctx, name, config)
}
func (defaultReg) RegisterDatabase(name string, maker registry.DatabaseMaker) {
	registry.RegisterDatabase(name, maker)
}
func (defaultReg) NewDatabase(ctx context.Context, name string, config interface{}) (database.DB, error) {
	return registry.NewDatabase(ctx, name, config)
}
func (defaultReg) RegisterDistribution(name string, maker registry.DistributionMaker) {
	registry.RegisterDistribution(name, maker)
}
func (defaultReg) NewDistribution(ctx context.Context, name string, config interface{}) (dist.Params, error) {
	return registry.NewDistribution(ctx, name, config)
}

func register(r reg, name string, m *maker) {
	switch m.kind {
	case 0:
		r.RegisterListener(name, registry.ListenerMakerFunc(func(ctx context.Context, config interface{}) (listener.Listener, error) {
			m.call(0, ctx, config)
			if m.fail != nil {
				return nil, m.fail
			}
			return PlugListener{thing{0, m.id}}, nil
		}))
	case 1:
		r.RegisterDatabase(name, registry.DatabaseMakerFunc(func(ctx context.Context, config interface{}) (database.DB, error) {
			m.call(1, ctx, config)
			if m.fail != nil {
				return nil, m.fail
			}
			return PlugDatabase{thing{1, m.id}}, nil
		}))
	case 2:
		r.RegisterDistribution(name, registry.DistributionMakerFunc(func(ctx context.Context, config interface{}) (dist.Params, error) {
			m.call(2, ctx, config)
			if m.fail != nil {
				return nil, m.fail
			}
			return PlugParams{thing{2, m.id}}, nil
		}))
	}
}

// construct constructs something, and returns the maker's id or -1.
func construct(r reg, ctx context.Context, kind int, name string, config interface{}) (id int, err error) {
	id = -1
	switch kind {
	case 0:
		v, err := r.NewListener(ctx, name, config)
		if l, ok := v.(PlugListener); ok {
			id = l.id
		} else if v != nil && err == nil {
			id = -2
		}
		return id, err
	case 1:
		v, err := r.NewDatabase(ctx, name, config)
		if l, ok := v.(PlugDatabase); ok {
			id = l.id
		} else if v != nil && err == nil {
			id = -2
		}
		return id, err
	default:
		v, err := r.NewDistribution(ctx, name, config)
		if l, ok := v.(PlugParams); ok {
			id = l.id
		} else if v != nil && err == nil {
			id = -2
		}
		return id, err
	}
}

// contains tells if the error is or wraps the other.
func contains(err, other error) bool {
	type causer interface{ Cause() error }
	for err != nil {
		if err == other || errors.Is(err, other) {
			return true
		}
		c, ok := err.(causer)
		if !ok || c.Cause() == err {
			return false
		}
		err = c.Cause()
	}
	return false
}

type ctxKey struct{}

func historyCase(c *hk.C) {
	var r reg = new(registry.Registry)
	prefix := ""
	if c.P(1, 3) {
		r = defaultReg{}
		prefix = fmt.Sprintf("%d/", c.Index) // shared with the other cases
	}
	names := []string{"", "a", "b", "A", "a ", "files", "tdigest", "graphite", "\x00", "ключ"}[:c.Range(1, 10)]
	current := make([]map[string]*maker, kinds)
	for i := range current {
		current[i] = make(map[string]*maker)
	}
	var all []*maker
	var calls []int64
	for step := c.Range(1, 40); step > 0; step-- {
		kind, name := c.Intn(kinds), prefix+names[c.Intn(len(names))]
		if c.P(1, 2) {
			m := &maker{kind: kind, id: len(all)}
			if c.P(1, 3) {
				m.fail = fmt.Errorf("failure of %d", m.id)
			}
			all = append(all, m)
			calls = append(calls, 0)
			c.Guard("register", func() { register(r, name, m) })
			current[kind][name] = m
			c.Logf("register kind %d %q: %d", kind, name, m.id)
			continue
		}
		var config interface{}
		switch c.Intn(4) {
		case 0:
			config = map[string]interface{}{"a": int64(c.Intn(9))}
		case 1:
			config = &struct{ x int }{c.Intn(9)}
		case 2:
			config = c.Intn(9)
		}
		cctx := context.WithValue(ctx, ctxKey{}, step)
		m := current[kind][name]
		var id int
		var err error
		c.Guard("construct", func() { id, err = construct(r, cctx, kind, name, config) })
		if c.Failed() {
			return
		}
		c.Logf("construct kind %d %q: %d %v", kind, name, id, err)
		if m == nil {
			if err == nil || id != -1 {
				c.Failf("unregistered", "kind %d %q, which is not registered: got %d, error %v", kind, name, id, err)
				return
			}
			c.Count("unregistered", 1)
		} else {
			calls[m.id]++
			if m.fail != nil {
				if !contains(err, m.fail) {
					c.Failf("error", "kind %d %q failed with %v, but got %d, error %v", kind, name, m.fail, id, err)
					return
				}
				c.Count("maker errors", 1)
			} else if err != nil || id != m.id {
				c.Failf("maker", "kind %d %q was made by %d (error %v), should be by %d", kind, name, id, err, m.id)
				return
			} else {
				c.Count("constructed", 1)
				c.NonTrivial()
			}
			same := reflect.DeepEqual(m.config, config)
			if same && config != nil && reflect.TypeOf(config).Kind() == reflect.Ptr {
				same = m.config == config
			}
			if !same || m.ctx == nil || m.ctx.Value(ctxKey{}) != step {
				c.Failf("passed", "kind %d %q: the maker was given %#v, should be %#v", kind, name, m.config, config)
				return
			}
		}
		for i, m := range all {
			if m.calls != calls[i] {
				c.Failf("calls", "maker %d was called %d times, should be %d", i, m.calls, calls[i])
				return
			}
		}
		c.Sig(kind, name, m != nil)
	}
}

// stormCase registers and constructs from many threads.
func stormCase(c *hk.C) {
	var r reg = new(registry.Registry)
	prefix := ""
	if c.P(1, 4) {
		r = defaultReg{}
		prefix = fmt.Sprintf("storm %d/", c.Index)
	}
	var clock int64
	tick := func() int64 { return atomic.AddInt64(&clock, 1) }

	type event struct {
		kind       int
		name       string
		id         int
		start, end int64
		err        error
	}
	var mu sync.Mutex
	var regs, uses []event
	var nextID int64
	names := []string{prefix + "x", prefix + "y", prefix + "z"}[:c.Range(1, 3)]

	var wg sync.WaitGroup
	threads := c.Range(2, 8)
	for t := 0; t < threads; t++ {
		rnd := hk.NewRand(c.U64())
		wg.Add(1)
		go func() {
			defer wg.Done()
			var myRegs, myUses []event
			for i := 0; i < 60; i++ {
				e := event{kind: rnd.Intn(kinds), name: names[rnd.Intn(len(names))]}
				if rnd.P(1, 4) {
					m := &maker{kind: e.kind, id: int(atomic.AddInt64(&nextID, 1))}
					e.id = m.id
					e.start = tick()
					register(r, e.name, m)
					e.end = tick()
					myRegs = append(myRegs, e)
				} else {
					e.start = tick()
					e.id, e.err = construct(r, ctx, e.kind, e.name, nil)
					e.end = tick()
					myUses = append(myUses, e)
				}
			}
			mu.Lock()
			regs = append(regs, myRegs...)
			uses = append(uses, myUses...)
			mu.Unlock()
		}()
	}
	wg.Wait()

	overlap := 0
	for _, u := range uses {
		var cands []event
		for _, g := range regs {
			if g.kind == u.kind && g.name == u.name {
				cands = append(cands, g)
			}
		}
		c.Count("storm constructions", 1)
		if u.err != nil {
			for _, g := range cands {
				if g.end < u.start {
					c.Failf("lost", "kind %d %q could not be constructed although it was registered: %v", u.kind, u.name, u.err)
					return
				}
			}
			continue
		}
		found := false
		for _, g := range cands {
			if g.id != u.id {
				continue
			}
			found = true
			if g.start > u.end {
				c.Failf("future", "kind %d %q was made by %d, which was registered later", u.kind, u.name, u.id)
				return
			}
			for _, h := range cands {
				if h.start > g.end && h.end < u.start {
					c.Failf("stale", "kind %d %q was made by %d, which had been replaced by %d", u.kind, u.name, u.id, h.id)
					return
				}
				if h.start < u.end && h.end > u.start {
					overlap++
				}
			}
		}
		if !found {
			c.Failf("mixed", "kind %d %q was made by %d, which was not registered for it", u.kind, u.name, u.id)
			return
		}
	}
	c.Count("overlapping registrations", int64(overlap))
	c.NonTrivial()
	c.Sig(threads, len(names), len(regs), overlap)
}

// nestedCase has makers use the registry.
func nestedCase(c *hk.C) {
	var r reg = new(registry.Registry)
	prefix := ""
	if c.P(1, 3) {
		r = defaultReg{}
		prefix = fmt.Sprintf("nested %d/", c.Index)
	}
	var problem atomic.Value
	fail := func(format string, args ...interface{}) { problem.Store(fmt.Sprintf(format, args...)) }

	depth := c.Range(1, 5)
	var build func(level int) *maker
	ids := 0
	build = func(level int) *maker {
		ids++
		m := &maker{kind: c.Intn(kinds), id: ids}
		name := fmt.Sprintf("%slevel %d", prefix, level)
		if level < depth {
			inner := build(level + 1)
			innerName := fmt.Sprintf("%slevel %d", prefix, level+1)
			m.inside = func() {
				// register what is needed, and make it
				register(r, innerName, inner)
				id, err := construct(r, ctx, inner.kind, innerName, nil)
				if err != nil || id != inner.id {
					fail("level %d: made by %d (%v), should be by %d", level+1, id, err, inner.id)
				}
				c.Count("nested constructions", 1)
			}
		} else {
			again := &maker{kind: m.kind, id: 1000}
			m.inside = func() {
				// replaces itself
				register(r, name, again)
				id, err := construct(r, ctx, again.kind, name, nil)
				if err != nil || id != again.id {
					fail("replaced: made by %d (%v)", id, err)
				}
			}
		}
		return m
	}
	top := build(0)
	name := prefix + "level 0"
	done := make(chan struct{})
	go func() {
		defer close(done)
		register(r, name, top)
		id, err := construct(r, ctx, top.kind, name, nil)
		if err != nil || id != top.id {
			fail("made by %d (%v), should be by %d", id, err, top.id)
		}
	}()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		c.Failf("blocked", "a maker that uses the registry blocks")
		return
	}
	if p := problem.Load(); p != nil {
		c.Failf("nested", "%v", p)
		return
	}
	c.NonTrivial()
	c.Sig(depth, top.kind)
}

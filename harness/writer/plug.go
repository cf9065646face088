package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"runtime"
	"sync/atomic"
	"time"

	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/registry"
)

// PlugParams makes distributions that keep every value, so that what a record
// holds can be told exactly. They detect being used by two threads at once and
// widen the windows in which something could go wrong.
type PlugParams struct {
	jitter int                // 0..64: how often to yield inside of calls
	fail   func(n int64) bool // whether the n'th creation fails
	made   *int64
	failed *int64
}

var plugNoise uint64
var plugClash int64

func plugYield(level int) {
	if level == 0 {
		return
	}
	x := (atomic.AddUint64(&plugNoise, 1) * 0x9e3779b97f4a7c15) >> 40
	switch {
	case x%512 < uint64(level):
		time.Sleep(time.Duration(x>>9%50) * time.Microsecond)
	case x%64 < uint64(level):
		runtime.Gosched()
	}
}

func newPlug(jitter int, fail func(int64) bool) PlugParams {
	return PlugParams{jitter: jitter, fail: fail, made: new(int64), failed: new(int64)}
}

func (p PlugParams) Kind() string { return "verif-list" }

func (p PlugParams) New() (dist.Dist, error) {
	plugYield(p.jitter)
	if p.made == nil {
		return nil, errors.New("not configured")
	}
	n := atomic.AddInt64(p.made, 1)
	if p.fail != nil && p.fail(n) {
		atomic.AddInt64(p.failed, 1)
		return nil, errors.New("injected")
	}
	return &PlugDist{jitter: p.jitter}, nil
}

func (p PlugParams) Unmarshal(data []byte) (dist.Dist, error) {
	vals, err := listValues(data)
	if err != nil {
		return nil, err
	}
	return &PlugDist{vals: vals}, nil
}

func listValues(data []byte) ([]float64, error) {
	if len(data) < 8 {
		return nil, fmt.Errorf("list too short: %d", len(data))
	}
	n := binary.LittleEndian.Uint64(data)
	data = data[8:]
	if uint64(len(data)) != 8*n {
		return nil, fmt.Errorf("list of %d has %d bytes", n, len(data))
	}
	vals := make([]float64, n)
	for i := range vals {
		vals[i] = math.Float64frombits(binary.LittleEndian.Uint64(data[8*i:]))
	}
	return vals, nil
}

// PlugDist is a distribution that keeps all values.
type PlugDist struct {
	jitter int
	busy   int32
	vals   []float64
}

func (d *PlugDist) enter() {
	if !atomic.CompareAndSwapInt32(&d.busy, 0, 1) {
		atomic.AddInt64(&plugClash, 1)
	}
	plugYield(d.jitter)
}

func (d *PlugDist) leave() { atomic.StoreInt32(&d.busy, 0) }

func (d *PlugDist) Kind() string { return "verif-list" }

func (d *PlugDist) Query(x float64) float64 { return 0 }

func (d *PlugDist) CDF(x float64) float64 { return 0 }

func (d *PlugDist) Len() int64 { return int64(len(d.vals)) }

func (d *PlugDist) Observe(val float64) {
	d.enter()
	d.vals = append(d.vals, val)
	d.leave()
}

func (d *PlugDist) Marshal(buf []byte) []byte {
	d.enter()
	var tmp [8]byte
	binary.LittleEndian.PutUint64(tmp[:], uint64(len(d.vals)))
	buf = append(buf, tmp[:]...)
	plugYield(d.jitter)
	for _, v := range d.vals {
		binary.LittleEndian.PutUint64(tmp[:], math.Float64bits(v))
		buf = append(buf, tmp[:]...)
	}
	d.leave()
	return buf
}

var _ dist.Dist = (*PlugDist)(nil)

func init() {
	registry.RegisterDistribution("verif-list", registry.DistributionMakerFunc(
		func(ctx context.Context, config interface{}) (dist.Params, error) {
			return PlugParams{}, nil
		}))
}

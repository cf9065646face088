package main

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"time"

	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/internal/zzverif/hk"
)

// makeVals makes observations of some style, and tells how precisely the
// encoding, that stores differences as 32 bit floats, can represent them.
func makeVals(c *hk.C, n, style int) []float64 {
	out := make([]float64, n)
	base := (c.Float() - .5) * math.Pow(10, float64(c.Range(-3, 6)))
	for i := range out {
		switch style {
		case 0:
			out[i] = c.Float()
		case 1:
			out[i] = float64(c.Range(-3, 3))
		case 2:
			out[i] = base + c.Float()
		case 3:
			out[i] = math.Exp(c.Float()*20 - 10)
		case 4: // two clusters
			out[i] = float64(c.Intn(2))*1e4 + c.Float()
		case 5:
			out[i] = base
		case 6:
			out[i] = (c.Float() - .5) * 1e12
		case 7: // outliers
			out[i] = c.Float()
			if c.P(1, 50) {
				out[i] *= 1e6
			}
		case 8: // beyond what can be encoded
			out[i] = (c.Float() - .5) * math.Pow(10, float64(c.Range(30, 308)))
		case 9: // tiny
			out[i] = (c.Float() - .5) * math.Pow(10, float64(-c.Range(20, 300)))
		}
	}
	switch c.Intn(4) {
	case 0:
		sort.Float64s(out)
	case 1:
		sort.Sort(sort.Reverse(sort.Float64Slice(out)))
	}
	return out
}

const styles = 10

// accurate compares quantiles with the ones of the observations.
func accurate(c *hk.C, what string, d dist.Dist, vals []float64, comp float64, decoded int, tol float64) bool {
	s := append([]float64(nil), vals...)
	for i := range s {
		s[i] = clamp(s[i])
	}
	sort.Float64s(s)
	n := float64(len(s) - 1)
	at := func(x float64) float64 { // linear between the ranks
		x = math.Max(0, math.Min(n, x))
		i := int(x)
		if i >= len(s)-1 {
			return s[len(s)-1]
		}
		return s[i] + (s[i+1]-s[i])*(x-float64(i))
	}
	slack := 0.0 // in ranks
	if float64(len(s)) > comp {
		slack = 2 + n*5/comp*float64(1+decoded)
	}
	for i := 0; i <= 64; i++ {
		q := float64(i) / 64
		if c.P(1, 2) {
			q = c.Float()
		}
		v := d.Query(q)
		lo, hi := at(q*n-slack), at(q*n+slack)
		if slack > 0 {
			lo, hi = s[int(math.Max(0, math.Floor(q*n-slack)))], s[int(math.Min(n, math.Ceil(q*n+slack)))]
		}
		if !(v >= lo-tol && v <= hi+tol) {
			c.Failf("accuracy", "%squantile %v of %d observations with compression %v is %v, and should be from %v to %v", what, q, len(vals), comp, v, lo, hi)
			return false
		}
	}
	return true
}

func clamp(v float64) float64 {
	const m = math.MaxFloat32 / 2
	return math.Max(-m, math.Min(m, v))
}

func minmax(vals []float64) (min, max float64) {
	min, max = vals[0], vals[0]
	for _, v := range vals {
		min, max = math.Min(min, v), math.Max(max, v)
	}
	return min, max
}

// consistent checks all of the answers of a distribution of the values, to
// within the tolerance.
func consistent(c *hk.C, what string, d dist.Dist, vals []float64, exact bool, tol float64) bool {
	if d.Len() != int64(len(vals)) {
		c.Failf("length", "%s: length %d of %d observations", what, d.Len(), len(vals))
		return false
	}
	if len(vals) == 0 {
		return true
	}
	min, max := minmax(vals)
	min, max = clamp(min), clamp(max)
	const n = 257
	var qs [n]float64
	for i := range qs {
		q := float64(i) / (n - 1)
		v := d.Query(q)
		qs[i] = v
		if math.IsNaN(v) || v < min-tol || v > max+tol {
			c.Failf("range", "%s: quantile %v is %v, the %d observations are in %v to %v", what, q, v, len(vals), min, max)
			return false
		}
		if i > 0 && v < qs[i-1]-tol {
			c.Failf("monotone", "%s: quantile %v is %v, quantile %v is %v", what, q, v, float64(i-1)/(n-1), qs[i-1])
			return false
		}
	}
	if exact && (math.Abs(qs[0]-min) > tol || math.Abs(qs[n-1]-max) > tol) {
		c.Failf("extremes", "%s: quantiles 0 and 1 are %v and %v, the %d observations are in %v to %v", what, qs[0], qs[n-1], len(vals), min, max)
		return false
	}
	// percentiles, at arbitrary places, observed values and beyond the ends
	xs := []float64{min, max, min - 1, max + 1, 0, math.Inf(1), math.Inf(-1)}
	for i := 0; i < 40; i++ {
		xs = append(xs, min+(max-min)*c.Float(), vals[c.Intn(len(vals))], qs[c.Intn(n)])
	}
	sort.Float64s(xs)
	last := 0.0
	for _, x := range xs {
		p := d.CDF(x)
		if math.IsNaN(p) || p < 0 || p > 1 {
			c.Failf("percentile", "%s: the percentile of %v is %v", what, x, p)
			return false
		}
		if p < last {
			c.Failf("percentile", "%s: the percentile of %v is %v, less than before: %v", what, x, p, last)
			return false
		}
		last = p
		lo, hi := math.Max(0, p-1.0/64), math.Min(1, p+1.0/64)
		if p > 0 && d.Query(lo) > x+tol && lo > 0 || hi < 1 && d.Query(hi) < x-tol {
			c.Failf("inverse", "%s: the percentile of %v is %v, but the quantiles %v to %v are %v to %v", what, x, p, lo, hi, d.Query(lo), d.Query(hi))
			return false
		}
		if exact && (x > max+tol && p != 1 || x < min-tol && p != 0) {
			c.Failf("percentile", "%s: the percentile of %v outside of %v to %v is %v", what, x, min, max, p)
			return false
		}
	}
	c.Count("answers", n+int64(len(xs)))
	return true
}

func c21(r *hk.Run) {
	r.Rule("t-digests of random compression that observe values of many shapes - clusters, ties, sorted, far outside of the range that can be encoded - in several rounds, asked for quantiles and percentiles after every round, then marshalled after a prefix, unmarshalled and asked again. encodings with altered, missing and extra bytes. non-trivial if there were at least two distinct values or the damage was accepted; distinct by values")
	r.Cases("answers", r.N(12000, 400000), 8, answers)
	r.Cases("damage", r.N(60000, 3000000), 8, damage)
	r.Require("answers", 100000)
	r.Require("damage_accepted", 500)
	r.Require("damage_refused", 500)
}

func answers(c *hk.C) {
	comp := []float64{10, 20, 50, 100, 200, 1000}[c.Intn(6)]
	d, err := tdigest.Params{Compression: comp}.New()
	if err != nil {
		c.Failf("new", "compression %v: %v", comp, err)
		return
	}
	if d.Kind() != "tdigest" {
		c.Failf("kind", "%q", d.Kind())
	}
	style := c.Intn(styles)
	var vals []float64
	decoded := 0 // how often d went through the encoding
	rounds := c.Range(1, 4)
	for round := 0; round < rounds; round++ {
		n := c.Pick(0, 1, 2, 3, 10, 60, 300, 300, 1500)
		for _, v := range makeVals(c, n, style) {
			d.Observe(v)
			vals = append(vals, v)
		}
		if c.P(1, 4) {
			style = c.Intn(8)
		}
		min, max, tol := 0.0, 0.0, 0.0
		exact := float64(len(vals)) <= comp
		if len(vals) > 0 {
			min, max = minmax(vals)
			min, max = clamp(min), clamp(max)
			tol = (1e-12 + 2e-6*float64(decoded)) * (math.Abs(min) + math.Abs(max) + (max - min))
			if decoded > 0 {
				tol += 1e-36
			}
			if !accurate(c, "", d, vals, comp, decoded, tol) {
				return
			}
		}
		if !consistent(c, fmt.Sprintf("round %d, compression %v", round, comp), d, vals, exact, tol) {
			return
		}
		// marshal
		prefix := c.Bytes(c.Intn(20))
		buf := make([]byte, len(prefix), len(prefix)+c.Pick(0, 1, 100, 100000))
		copy(buf, prefix)
		out := d.Marshal(buf)
		if !bytes.HasPrefix(out, prefix) {
			c.Failf("prefix", "marshalling changed what was in the buffer")
			return
		}
		enc := append([]byte(nil), out[len(prefix):]...)
		again, err := tdigest.Params{}.Unmarshal(enc)
		if err != nil {
			c.Failf("unmarshal", "of what was marshalled: %v", err)
			return
		}
		tol = 2e-6*float64(decoded+1)*(math.Abs(min)+math.Abs(max)+(max-min)) + 1e-36
		if !consistent(c, fmt.Sprintf("unmarshalled, compression %v, round %d", comp, round), again, vals, exact, tol) {
			return
		}
		if len(vals) > 0 && !accurate(c, "unmarshalled: ", again, vals, comp, decoded+1, tol) {
			return
		}
		for i := 0; i < 60 && len(vals) > 0 && float64(len(vals)) <= comp; i++ {
			// not a single observation has been summarized yet.
			q := c.Float()
			if a, b := d.Query(q), again.Query(q); math.Abs(a-b) > tol {
				c.Failf("changed", "quantile %v is %v, after unmarshalling %v", q, a, b)
				return
			}
			c.Count("exact", 1)
		}
		// what was asked must not have changed anything, and the data that it
		// was unmarshalled from may be used for something else.
		for i := range enc {
			enc[i] ^= 0xff
		}
		if !consistent(c, "again", d, vals, exact, tol) || !consistent(c, "unmarshalled again", again, vals, exact, tol) {
			return
		}
		if c.P(1, 3) {
			d = again // go on with it
			decoded++
		}
		if max > min {
			c.NonTrivial()
		}
	}
	c.Sig(comp, style, len(vals), rounds, c.Intn(1<<30))
	c.Count("observed", int64(len(vals)))
	c.Sample(map[string]interface{}{"compression": comp, "observations": len(vals), "rounds": rounds})
}

// damage alters encodings.
func damage(c *hk.C) {
	d, _ := tdigest.Params{Compression: []float64{1, 2, 5, 20, 100}[c.Intn(5)]}.New()
	for _, v := range makeVals(c, c.Pick(0, 1, 2, 5, 40), c.Intn(styles)) {
		d.Observe(v)
	}
	enc := d.Marshal(nil)
	switch c.Intn(6) {
	case 0:
		enc = enc[:c.Intn(len(enc)+1)]
	case 1:
		enc = append(enc, c.Bytes(c.Range(1, 20))...)
	case 2:
		for i := 0; i < c.Range(1, 4); i++ {
			enc[c.Intn(len(enc))] ^= byte(1 << uint(c.Intn(8)))
		}
	case 3:
		for i := 0; i < c.Range(1, 4); i++ {
			enc[c.Intn(len(enc))] = byte(c.Pick(0, 1, 0x7f, 0x80, 0xff))
		}
	case 4:
		copy(enc[c.Intn(len(enc)):], c.Bytes(c.Range(1, 8)))
	case 5:
		enc = c.Bytes(c.Intn(60))
		if len(enc) > 4 && c.P(1, 2) {
			copy(enc, []byte{0, 0, 0, 1})
		}
	}
	c.Logf("data %x", enc)
	done := make(chan struct{})
	var accepted bool
	go func() {
		defer close(done)
		c.Guard("unmarshalling damaged data", func() {
			got, err := tdigest.Params{}.Unmarshal(enc)
			if err != nil {
				return
			}
			accepted = true
			got.Len()
			for _, q := range []float64{0, .1, .5, 1} {
				got.Query(q)
			}
			for _, x := range []float64{0, 1, -1e9, 1e9} {
				got.CDF(x)
			}
			got.Marshal(nil)
			for i := 0; i < 10; i++ {
				got.Observe(float64(i))
				got.Query(.3)
			}
			if again, err := (tdigest.Params{}).Unmarshal(got.Marshal(nil)); err == nil {
				again.Query(.5)
			}
		})
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		c.Failf("hang", "a damaged encoding is handled forever")
		return
	}
	if accepted {
		c.NonTrivial()
		c.Count("damage_accepted", 1)
	} else {
		c.Count("damage_refused", 1)
	}
	c.Sig(string(enc))
}

package main

import (
	"bytes"
	"context"
	"fmt"
	"image"
	"math"
	"sort"
	"time"

	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/draw"
	"github.com/vivint/rothko/draw/axis"
	"github.com/vivint/rothko/draw/colors"
	"github.com/vivint/rothko/draw/graph"
	"github.com/vivint/rothko/draw/heatmap"
	"github.com/vivint/rothko/draw/iosevka"
	"github.com/vivint/rothko/draw/key"
	"github.com/vivint/rothko/draw/observations"
	"github.com/vivint/rothko/internal/zzverif/hk"
)

var ctx = context.Background()

func c26(r *hk.Run) {
	r.Rule("heatmaps, keys, axes, observation bars and graphs of random sizes, labels, columns, colours and data, drawn onto nothing, onto too small, fitting and larger canvases, onto views into larger canvases surrounded by noise, and onto a canvas of another type: every pixel of heatmap and key compared with the colour of the value at its height, all drawings compared with each other, the surroundings, the given data and replaced canvases compared with what they were. non-trivial if something was drawn; distinct by kind and sizes")
	r.Cases("heatmap", r.N(4000, 200000), 8, heatmapCase)
	r.Cases("sizes", 3*40, 8, smallHeatmaps)
	r.Cases("key", r.N(3000, 100000), 8, keyCase)
	r.Cases("axis", r.N(4000, 150000), 8, axisCase)
	r.Cases("observations", r.N(3000, 100000), 8, obsCase)
	r.Cases("graph", r.N(1200, 40000), 8, graphCase)
	r.Cases("view", r.N(500, 5000), 8, viewCase)
	for _, name := range []string{"heatmap pixels", "key pixels", "axes", "bars", "graphs", "graph heatmap pixels", "replaced", "clipped columns", "nested",
		"ticks", "rates read", "labels read: quantiles", "labels read: values", "labels read: times", "labels read: rates"} {
		r.Require(name, 100)
	}
}

//
// canvases
//

// framed is a view in the middle of noise.
type framed struct {
	big        *draw.RGB
	view       *draw.RGB
	before     []byte
	x, y, w, h int
	how        string
}

func noise(c *hk.C, m *draw.RGB) {
	copy(m.Pix, c.Bytes(len(m.Pix)))
}

// frame makes a canvas of w by h of which the area outside can be checked.
func frame(c *hk.C, w, h int, blank bool) *framed {
	f := &framed{x: c.Intn(6), y: c.Intn(6), w: w, h: h, how: "view"}
	f.big = draw.NewRGB(f.x+w+c.Intn(6), f.y+h+c.Intn(6))
	noise(c, f.big)
	switch c.Intn(3) {
	case 0: // a view of a view
		dx, dy := c.Intn(f.x+1), c.Intn(f.y+1)
		outer := f.big.View(dx, dy, f.big.Width-dx, f.big.Height-dy)
		f.view = outer.View(f.x-dx, f.y-dy, w, h)
		f.how = "nested view"
		c.Count("nested", 1)
	default:
		f.view = f.big.View(f.x, f.y, w, h)
	}
	if blank {
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				copy(at(f.big, f.x+x, f.y+y), []byte{255, 255, 255, 255})
			}
		}
	}
	f.before = append([]byte(nil), f.big.Pix...)
	return f
}

// at returns the pixel of a canvas that is not a view, independently of the
// code under test.
func at(m *draw.RGB, x, y int) []byte {
	i := y*m.Stride + 4*x
	return m.Pix[i : i+4]
}

func (f *framed) at(x, y int) []byte { return at(f.big, f.x+x, f.y+y) }

func (f *framed) was(x, y int) []byte {
	i := (f.y+y)*f.big.Stride + 4*(f.x+x)
	return f.before[i : i+4]
}

// outside returns where a pixel out of the top left w by h of the view has
// changed.
func (f *framed) outside(w, h int) string {
	for y := 0; y < f.big.Height; y++ {
		for x := 0; x < f.big.Width; x++ {
			if x >= f.x && x < f.x+w && y >= f.y && y < f.y+h {
				continue
			}
			i := y*f.big.Stride + 4*x
			if !bytes.Equal(f.before[i:i+4], f.big.Pix[i:i+4]) {
				return fmt.Sprintf("pixel %d,%d out of the %dx%d of the %s (at %d,%d of %dx%d) was written", x-f.x, y-f.y, w, h,
					f.how, f.x, f.y, f.big.Width, f.big.Height)
			}
		}
	}
	return ""
}

// PlugCanvas is a canvas of another type.
type PlugCanvas struct {
	w, h int
	pix  map[[2]int]draw.Color
	out  string
}

func (p *PlugCanvas) Size() (w, h int) { return p.w, p.h }

func (p *PlugCanvas) Set(x, y int, col draw.Color) {
	if x < 0 || y < 0 || x >= p.w || y >= p.h {
		p.out = fmt.Sprintf("pixel %d,%d of a canvas of %dx%d was set", x, y, p.w, p.h)
		return
	}
	p.pix[[2]int{x, y}] = col
}

//
// data
//

func makeColors(c *hk.C) []draw.Color {
	if c.P(1, 4) {
		return append([]draw.Color(nil), colors.Viridis...)
	}
	n := c.Pick(1, 2, 3, 10, 256, 300, c.Range(1, 300))
	out := make([]draw.Color, n)
	for i := range out {
		// all distinct
		out[i] = draw.Color{R: uint8(i), G: uint8(i>>8) + uint8(c.Intn(50))*4, B: uint8(c.Intn(256))}
	}
	return out
}

// makeColumns makes columns next to each other, not necessarily without gaps.
func makeColumns(c *hk.C, w int, wild bool) (cols []draw.Column, clipped bool) {
	x := c.Pick(0, 0, c.Intn(w+1))
	if wild && c.P(1, 2) {
		x = -c.Intn(5)
	}
	maxw := c.Pick(1, 3, 20, w)
	for x < w && len(cols) < 60 {
		cw := c.Range(1, maxw)
		if c.P(1, 20) {
			cw = 0
		}
		if !wild && x+cw > w {
			cw = w - x
		}
		n := c.Pick(1, 2, 3, 30, c.Range(1, 120))
		data := make([]float64, n)
		base := c.Float()
		for i := range data {
			switch {
			case c.P(1, 4):
				data[i] = base
			default:
				data[i] = c.Float()
			}
		}
		if c.P(1, 10) {
			data[0], data[n-1] = 0, 1
		}
		sort.Float64s(data)
		obs := c.Float() * 1000
		if c.P(1, 10) {
			obs = 0
		}
		cols = append(cols, draw.Column{X: x, W: cw, Data: data, ObsSec: obs})
		if x < 0 || x+cw > w {
			clipped = true
		}
		x += cw
		if c.P(1, 4) {
			x += c.Intn(5)
		}
	}
	if wild && c.P(1, 4) {
		cols = append(cols, draw.Column{X: w + c.Intn(3), W: c.Range(1, 5), Data: []float64{.5}, ObsSec: 5})
		clipped = true
	}
	if wild && c.P(1, 4) {
		cols = append(cols, draw.Column{X: -10, W: c.Range(1, 10), Data: []float64{.5}, ObsSec: 5})
		clipped = true
	}
	if c.P(1, 4) { // the order does not matter
		p := c.Perm(len(cols))
		out := make([]draw.Column, len(cols))
		for i, j := range p {
			out[i] = cols[j]
		}
		cols = out
	}
	return cols, clipped
}

func cloneColumns(cols []draw.Column) []draw.Column {
	out := make([]draw.Column, len(cols))
	for i, col := range cols {
		out[i] = col
		out[i].Data = append([]float64(nil), col.Data...)
	}
	return out
}

func sameColumns(a, b []draw.Column) string {
	if len(a) != len(b) {
		return "the number of columns was changed"
	}
	for i := range a {
		if a[i].X != b[i].X || a[i].W != b[i].W || a[i].ObsSec != b[i].ObsSec || len(a[i].Data) != len(b[i].Data) {
			return fmt.Sprintf("column %d was changed", i)
		}
		for j := range a[i].Data {
			if a[i].Data[j] != b[i].Data[j] {
				return fmt.Sprintf("value %d of column %d was changed", j, i)
			}
		}
	}
	return ""
}

func sameColors(a, b []draw.Color) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// wanted returns the acceptable colours of the value of the column at the
// height, counted from the bottom.
func wanted(col draw.Column, up, height int, cols []draw.Color, mapper func(float64) float64) (out []draw.Color) {
	pos := 0.0
	if height > 1 {
		pos = float64(up) * float64(len(col.Data)-1) / float64(height-1)
	}
	for _, p := range []float64{pos, pos + 1e-6, pos - 1e-6} {
		i := int(math.Floor(p))
		if i < 0 || i >= len(col.Data) {
			continue
		}
		ci := mapper(col.Data[i]) * float64(len(cols)-1)
		for _, q := range []float64{ci, ci + 1e-6, ci - 1e-6} {
			if j := int(math.Floor(q)); j >= 0 && j < len(cols) {
				out = append(out, cols[j])
			}
		}
	}
	return out
}

func in(p []byte, want []draw.Color) bool {
	for _, w := range want {
		if p[0] == w.R && p[1] == w.G && p[2] == w.B && p[3] == 255 {
			return true
		}
	}
	return false
}

// checkHeatmap compares the pixels of a heatmap with the columns. at returns
// them, was what they were before.
func checkHeatmap(w, h int, cols []draw.Column, cl []draw.Color, mapper func(float64) float64, at, was func(x, y int) []byte) string {
	by := make([]*draw.Column, w)
	for i := range cols {
		for x := cols[i].X; x < cols[i].X+cols[i].W; x++ {
			if x >= 0 && x < w {
				by[x] = &cols[i]
			}
		}
	}
	for x := 0; x < w; x++ {
		for y := 0; y < h; y++ {
			p := at(x, y)
			if by[x] == nil {
				if !bytes.Equal(p, was(x, y)) {
					return fmt.Sprintf("pixel %d,%d was changed to %v without a column", x, y, p)
				}
				continue
			}
			if want := wanted(*by[x], h-1-y, h, cl, mapper); !in(p, want) {
				return fmt.Sprintf("pixel %d,%d is %v, should be one of %v (column at %d with %d values, height %d)", x, y, p, want, by[x].X, len(by[x].Data), h)
			}
		}
	}
	return ""
}

//
// heatmap
//

func makeMap(c *hk.C) func(float64) float64 {
	switch c.Intn(3) {
	case 0:
		return func(v float64) float64 { return v }
	case 1:
		return func(v float64) float64 { return v * v }
	default:
		step := float64(c.Range(1, 7))
		return func(v float64) float64 { return math.Floor(v*step) / step }
	}
}

func heatmapCase(c *hk.C) {
	drawHeatmap(c, c.Pick(1, 2, c.Range(1, 90)), c.Pick(1, 2, 3, c.Range(1, 90)))
}

// smallHeatmaps goes through all of the small sizes.
func smallHeatmaps(c *hk.C) {
	drawHeatmap(c, 1+c.Index/40, 1+c.Index%40)
}

func drawHeatmap(c *hk.C, w, h int) {
	cols, clipped := makeColumns(c, w, c.P(1, 2))
	cl := makeColors(c)
	mapper := makeMap(c)
	keep, keepCl := cloneColumns(cols), append([]draw.Color(nil), cl...)
	what := fmt.Sprintf("heatmap of %dx%d with %d columns and %d colours", w, h, len(cols), len(cl))
	for _, col := range cols {
		c.Logf("column x=%d w=%d values=%d", col.X, col.W, len(col.Data))
	}
	drawOn := func(m draw.Canvas) {
		hm := heatmap.New(heatmap.Options{Colors: cl, Canvas: m, Map: mapper})
		for _, col := range cols {
			hm.Draw(ctx, col)
		}
	}

	// onto a canvas of its own
	own := draw.NewRGB(w, h)
	noise(c, own)
	before := append([]byte(nil), own.Pix...)
	c.Guard(what, func() { drawOn(own) })
	if c.Failed() {
		return
	}
	was := func(x, y int) []byte { i := 4 * (y*w + x); return before[i : i+4] }
	if d := checkHeatmap(w, h, cols, cl, mapper, func(x, y int) []byte { return at(own, x, y) }, was); d != "" {
		c.Failf("colour", "%s: %s", what, d)
		return
	}

	// onto a view
	f := frame(c, w, h, false)
	c.Guard(what, func() { drawOn(f.view) })
	if c.Failed() {
		return
	}
	if d := f.outside(w, h); d != "" {
		c.Failf("outside", "%s: %s", what, d)
		return
	}
	if d := checkHeatmap(w, h, cols, cl, mapper, f.at, f.was); d != "" {
		c.Failf("colour", "%s on a %s: %s", what, f.how, d)
		return
	}

	// onto something else
	p := &PlugCanvas{w: w, h: h, pix: make(map[[2]int]draw.Color)}
	c.Guard(what, func() { drawOn(p) })
	if c.Failed() {
		return
	}
	if p.out != "" {
		c.Failf("outside", "%s: %s", what, p.out)
		return
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			col, ok := p.pix[[2]int{x, y}]
			want := at(own, x, y)
			if !ok && !bytes.Equal(want, was(x, y)) || ok && (col.R != want[0] || col.G != want[1] || col.B != want[2]) {
				c.Failf("canvas", "%s: pixel %d,%d of another kind of canvas is %v (set: %v), on an RGB it is %v", what, x, y, col, ok, want)
				return
			}
			if ok {
				c.NonTrivial()
			}
		}
	}

	if d := sameColumns(cols, keep); d != "" || !sameColors(cl, keepCl) {
		c.Failf("modified", "%s: the given data was modified: %s", what, d)
		return
	}
	if clipped {
		c.Count("clipped columns", 1)
	}
	c.Count("heatmap pixels", int64(3*w*h))
	c.Sig("heatmap", w, h, len(cl), len(cols))
	if c.Index < 2 {
		c.Sample(what)
	}
}

//
// targets: what to draw onto, when it may be replaced
//

type target struct {
	in    *draw.RGB // may be nil
	f     *framed   // if it is big enough
	keep  []byte    // if it is not
	large bool
	how   string
}

func makeTarget(c *hk.C, w, h int, blank bool) *target {
	t := &target{}
	switch c.Intn(6) {
	case 0:
		t.how = "nothing"
	case 1: // too small
		cw, ch := w, h
		switch {
		case c.P(1, 3):
			cw = c.Intn(w)
		case c.P(1, 2):
			ch = c.Intn(h)
		default:
			cw, ch = c.Intn(w), c.Intn(h)
		}
		if c.P(1, 2) { // much too large the other way
			if cw < w && ch == h {
				ch = h*2 + c.Intn(2*w*h/(cw+1)+1)%3000
			} else if ch < h && cw == w {
				cw = w*2 + c.Intn(2*w*h/(ch+1)+1)%3000
			}
		}
		t.in = draw.NewRGB(cw, ch)
		noise(c, t.in)
		t.keep = append([]byte(nil), t.in.Pix...)
		t.how = "a canvas that is too small"
	case 2: // a view that is too small, into something large enough
		big := draw.NewRGB(w+10, h+10)
		noise(c, big)
		t.keep = append([]byte(nil), big.Pix...)
		t.in = big.View(c.Intn(5), c.Intn(5), w-c.Intn(2), h-1)
		t.how = "a view that is too small"
	case 3: // more than enough
		t.f = frame(c, w+c.Intn(10), h+c.Intn(10), blank)
		t.in = t.f.view
		t.large = true
		t.how = "a larger " + t.f.how
	default:
		t.f = frame(c, w, h, blank)
		t.in = t.f.view
		t.how = "a " + t.f.how
	}
	return t
}

// check checks which canvas was returned, and returns access to its pixels.
func (t *target) check(c *hk.C, what string, out *draw.RGB, w, h int) (func(x, y int) []byte, bool) {
	if out == nil {
		c.Failf("nil", "%s: no canvas was returned", what)
		return nil, false
	}
	if t.f == nil {
		if t.in != nil {
			if out == t.in {
				c.Failf("size", "%s: was not replaced", what)
				return nil, false
			}
			if !bytes.Equal(t.keep, t.in.Pix) {
				c.Failf("replaced", "%s: was drawn onto though it was replaced", what)
				return nil, false
			}
		}
		ow, oh := out.Size()
		if ow != w || oh != h || len(out.Pix) < 4*w*h {
			c.Failf("size", "%s: replaced by one of %dx%d, should be %dx%d", what, ow, oh, w, h)
			return nil, false
		}
		c.Count("replaced", 1)
		return func(x, y int) []byte { return at(out, x, y) }, true
	}
	if out != t.in {
		// it may be another view of the same pixels
		if ow, oh := out.Size(); len(out.Pix) == 0 || &out.Pix[0] != &t.in.Pix[0] || out.X != t.in.X || out.Y != t.in.Y || ow != t.in.Width || oh != t.in.Height {
			c.Failf("replaced", "%s: was replaced though it is large enough", what)
			return nil, false
		}
	}
	if d := t.f.outside(w, h); d != "" {
		c.Failf("outside", "%s: %s", what, d)
		return nil, false
	}
	return t.f.at, true
}

//
// key
//

func keyCase(c *hk.C) {
	w, h := c.Pick(1, 10, c.Range(1, 40)), c.Pick(1, 2, 3, c.Range(1, 400))
	cl := makeColors(c)
	keep := append([]draw.Color(nil), cl...)
	t := makeTarget(c, w, h, false)
	what := fmt.Sprintf("key of %dx%d with %d colours onto %s", w, h, len(cl), t.how)
	var out *draw.RGB
	c.Guard(what, func() { out = key.Draw(t.in, key.Options{Colors: cl, Width: w, Height: h}) })
	if c.Failed() {
		return
	}
	at, ok := t.check(c, what, out, w, h)
	if !ok {
		return
	}
	if !sameColors(cl, keep) {
		c.Failf("modified", "%s: the colours were modified", what)
		return
	}
	for y := 0; y < h; y++ {
		pos := 0.0
		if h > 1 {
			pos = float64(h-1-y) * float64(len(cl)-1) / float64(h-1)
		}
		var want []draw.Color
		for _, p := range []float64{pos, pos + 1e-6, pos - 1e-6} {
			if i := int(math.Floor(p)); i >= 0 && i < len(cl) {
				want = append(want, cl[i])
			}
		}
		if y == h-1 {
			want = []draw.Color{cl[0]}
		} else if y == 0 {
			want = []draw.Color{cl[len(cl)-1]}
			if len(cl) > 1 {
				// rounding may keep it from the very last
				want = append(want, cl[len(cl)-2])
			}
		}
		for x := 0; x < w; x++ {
			if !in(at(x, y), want) {
				c.Failf("colour", "%s: pixel %d,%d is %v, should be one of %v", what, x, y, at(x, y), want)
				return
			}
		}
	}
	c.NonTrivial()
	c.Count("key pixels", int64(w*h))
	c.Sig("key", w, h, len(cl), t.how)
}

//
// axis
//

func text(c *hk.C) string {
	switch c.Intn(6) {
	case 0:
		return ""
	case 1:
		return fmt.Sprintf("%0.2f", c.Float())
	case 2:
		return "1/2 @ 15:04"
	case 3:
		return fmt.Sprintf("%#.3g", (c.Float()-.5)*1e9)
	case 4:
		return string("jgW\x00\xffé漢y|"[c.Intn(8):])
	default:
		b := make([]byte, c.Intn(40))
		for i := range b {
			b[i] = byte(c.Range(32, 126))
		}
		return string(b)
	}
}

func axisCase(c *hk.C) {
	opts := axis.Options{
		Face:      iosevka.Iosevka,
		Vertical:  c.P(1, 2),
		Length:    c.Pick(1, 2, 10, c.Range(1, 400)),
		Flip:      c.P(1, 2),
		DontBleed: c.P(1, 2),
	}
	n := c.Pick(0, 1, 2, 5, 40)
	for i := 0; i < n; i++ {
		pos := c.Float()
		if c.P(1, 6) {
			pos = float64(c.Intn(2))
		}
		opts.Labels = append(opts.Labels, axis.Label{Position: pos, Text: text(c)})
	}
	if c.P(2, 3) {
		sort.Slice(opts.Labels, func(i, j int) bool { return opts.Labels[i].Position < opts.Labels[j].Position })
	}
	keep := append([]axis.Label(nil), opts.Labels...)
	what := fmt.Sprintf("axis %+v", opts)
	if len(what) > 400 {
		what = what[:400]
	}

	var m axis.Measured
	c.Guard(what, func() { m = axis.Measure(ctx, opts) })
	if c.Failed() {
		return
	}
	if opts.Vertical && m.Height < opts.Length || !opts.Vertical && m.Width < opts.Length || m.Width <= 0 || m.Height <= 0 {
		c.Failf("size", "%s: measured as %dx%d", what, m.Width, m.Height)
		return
	}

	var ref *draw.RGB
	c.Guard(what, func() { ref = m.Draw(ctx, nil) })
	if c.Failed() {
		return
	}
	if w, h := ref.Size(); w != m.Width || h != m.Height {
		c.Failf("size", "%s: drawn as %dx%d, measured %dx%d", what, w, h, m.Width, m.Height)
		return
	}
	// the axis itself
	for i := 0; i < opts.Length; i++ {
		x, y := i, 0
		if opts.Vertical {
			x, y = 0, i
			if opts.Flip {
				x = m.Width - 1
			}
		}
		if p := at(ref, x, y); p[0] != 0 || p[1] != 0 || p[2] != 0 {
			c.Failf("line", "%s: pixel %d,%d of the axis is %v", what, x, y, p)
			return
		}
	}

	// a tick for each label, and nothing else next to the axis
	if d := checkTicks(opts, m, ref); d != "" {
		c.Failf("tick", "%s: %s", what, d)
		return
	}
	c.Count("ticks", int64(len(opts.Labels)))

	t := makeTarget(c, m.Width, m.Height, true)
	what += " onto " + t.how
	var out *draw.RGB
	// what the caller does with its labels does not matter
	if c.P(1, 3) {
		for i := range opts.Labels {
			opts.Labels[i] = axis.Label{Position: .5, Text: "WWWWWWWW"}
		}
		c.Guard(what, func() { out = m.Draw(ctx, t.in) })
		opts.Labels = append([]axis.Label(nil), keep...)
	} else {
		c.Guard(what, func() { out = m.Draw(ctx, t.in) })
	}
	if c.Failed() {
		return
	}
	w, h := m.Width, m.Height
	if t.large {
		// text may go on
		w, h = t.f.w, t.f.h
	}
	at2, ok := t.check(c, what, out, w, h)
	if !ok {
		return
	}
	for y := 0; y < m.Height; y++ {
		for x := 0; x < m.Width; x++ {
			if !bytes.Equal(at2(x, y), at(ref, x, y)) {
				c.Failf("differs", "%s: pixel %d,%d is %v, on a canvas of its own it is %v", what, x, y, at2(x, y), at(ref, x, y))
				return
			}
		}
	}
	for i := range keep {
		if opts.Labels[i] != keep[i] {
			c.Failf("modified", "%s: the labels were modified", what)
			return
		}
	}
	c.NonTrivial()
	c.Count("axes", 1)
	c.Sig("axis", opts.Vertical, opts.Flip, opts.DontBleed, opts.Length, n, t.how)
	if c.Index < 2 {
		c.Sample(what)
	}
}

//
// observations
//

func obsCase(c *hk.C) {
	opts := observations.Options{Face: iosevka.Iosevka, Width: c.Pick(1, 10, c.Range(1, 300)), Height: c.Pick(1, 5, c.Range(1, 30))}
	cols, clipped := makeColumns(c, opts.Width, c.P(1, 2))
	if c.P(1, 20) {
		cols = nil
	}
	keep := cloneColumns(cols)
	what := fmt.Sprintf("bar of %dx%d with %d columns", opts.Width, opts.Height, len(cols))
	var m observations.Measured
	c.Guard(what, func() { m = observations.Measure(ctx, opts) })
	if c.Failed() {
		return
	}
	if m.Width != opts.Width || m.Height < opts.Height {
		c.Failf("size", "%s: measured as %dx%d", what, m.Width, m.Height)
		return
	}
	t := makeTarget(c, m.Width, m.Height, true)
	what += " onto " + t.how
	var out *draw.RGB
	c.Guard(what, func() { out = m.Draw(ctx, cols, t.in) })
	if c.Failed() {
		return
	}
	w, h := m.Width, m.Height
	if t.large {
		w, h = t.f.w, t.f.h // text may go on
	}
	at2, ok := t.check(c, what, out, w, h)
	if !ok {
		return
	}
	if d := sameColumns(cols, keep); d != "" {
		c.Failf("modified", "%s: %s", what, d)
		return
	}
	if d := checkRate(m, cols, readable(at2)); d != "" {
		c.Failf("label", "%s: %s", what, d)
		return
	}
	c.Count("rates read", 1)
	// the more observations, the darker
	var max float64
	for _, col := range cols {
		if col.ObsSec > max {
			max = col.ObsSec
		}
	}
	by := make([]*draw.Column, m.Width)
	for i := range cols {
		for x := cols[i].X; x < cols[i].X+cols[i].W; x++ {
			if x >= 0 && x < m.Width {
				by[x] = &cols[i]
			}
		}
	}
	for x := range by {
		for y := m.Height - opts.Height; y < m.Height; y++ {
			p := at2(x, y)
			lo, hi := 255.0, 255.0
			if by[x] != nil && max > 0 {
				v := 255 - by[x].ObsSec/max*255
				lo, hi = v-1.01, v+1.01
			}
			if p[0] != p[1] || p[1] != p[2] || float64(p[0]) < lo || float64(p[0]) > hi {
				c.Failf("shade", "%s: pixel %d,%d of the bar is %v, should be between %v and %v", what, x, y, p, lo, hi)
				return
			}
		}
	}
	if len(cols) > 0 {
		c.NonTrivial()
	}
	if clipped {
		c.Count("clipped columns", 1)
	}
	c.Count("bars", 1)
	c.Sig("obs", opts.Width, opts.Height, len(cols), t.how)
}

//
// graph
//

func graphCase(c *hk.C) {
	opts := graph.MeasureOptions{
		Now:      time.Now().UnixNano(),
		Duration: time.Duration(c.Pick(1, 1e9, 3600e9, 24*3600e9, 24*3600e9*30)),
		Width:    c.Pick(1000, c.Range(1, 300), c.Range(100, 600)),
		Height:   c.Pick(350, c.Range(1, 120), c.Range(50, 300)),
		Padding:  c.Pick(0, 1, 5, 20),
	}
	if c.P(1, 10) {
		opts.Now = int64(c.Range(-1000, 1000)) * 3600e9
	}
	var dst dist.Dist
	if c.P(7, 8) {
		dst, _ = tdigest.Params{Compression: 100}.New()
		for i := c.Range(1, 50); i > 0; i-- {
			dst.Observe(c.Float())
		}
		opts.Earliest = dst
	}
	what := fmt.Sprintf("graph of %dx%d padding %d over %v", opts.Width, opts.Height, opts.Padding, opts.Duration)
	var m graph.Measured
	var ok bool
	c.Guard(what, func() { m, ok = graph.Measure(ctx, opts) })
	if c.Failed() {
		return
	}
	if !ok {
		c.Count("too small", 1)
		if opts.Width >= 300 && opts.Height >= 150 {
			c.Failf("measure", "%s: is said to be too small", what)
		}
		return
	}
	cw, ch := opts.Width+2*opts.Padding, opts.Height+2*opts.Padding
	if m.Width <= 0 || m.Height <= 0 || m.X < 0 || m.Y < 0 || m.X+m.Width > cw || m.Y+m.Height > ch {
		c.Failf("measure", "%s: the heatmap is %dx%d at %d,%d", what, m.Width, m.Height, m.X, m.Y)
		return
	}

	cols, clipped := makeColumns(c, m.Width, c.P(1, 3))
	if c.P(1, 10) {
		cols = nil
	}
	cl := makeColors(c)
	keep, keepCl := cloneColumns(cols), append([]draw.Color(nil), cl...)
	dopts := graph.DrawOptions{Columns: cols, Colors: cl}
	var ref *draw.RGB
	c.Guard(what, func() { ref = m.Draw(ctx, dopts) })
	if c.Failed() {
		return
	}
	if w, h := ref.Size(); w != cw || h != ch {
		c.Failf("size", "%s: drawn as %dx%d", what, w, h)
		return
	}
	if dst != nil {
		white := []byte{255, 255, 255, 255}
		// the observation bar is right above, so nothing else is drawn here
		d := checkHeatmap(m.Width, m.Height, cols, cl, dst.CDF,
			func(x, y int) []byte { return at(ref, m.X+x, m.Y+y) }, func(x, y int) []byte { return white })
		if d != "" {
			c.Failf("colour", "%s: heatmap: %s", what, d)
			return
		}
		c.Count("graph heatmap pixels", int64(m.Width*m.Height))
	}

	maxObs, inside := 0.0, true
	for _, col := range cols {
		maxObs = math.Max(maxObs, col.ObsSec)
		inside = inside && col.X >= 0
	}
	if d := checkLabels(c, m, opts, dst, maxObs, inside, cw, ch, func(x, y int) []byte { return at(ref, x, y) }); d != "" {
		c.Failf("label", "%s: %s", what, d)
		return
	}

	t := makeTarget(c, cw, ch, true)
	what += " onto " + t.how
	dopts.Canvas = t.in
	var out *draw.RGB
	c.Guard(what, func() { out = m.Draw(ctx, dopts) })
	if c.Failed() {
		return
	}
	at2, ok := t.check(c, what, out, cw, ch)
	if !ok {
		return
	}
	for y := 0; y < ch; y++ {
		for x := 0; x < cw; x++ {
			if !bytes.Equal(at2(x, y), at(ref, x, y)) {
				c.Failf("differs", "%s: pixel %d,%d is %v, on a canvas of its own it is %v", what, x, y, at2(x, y), at(ref, x, y))
				return
			}
		}
	}
	if d := sameColumns(cols, keep); d != "" || !sameColors(cl, keepCl) {
		c.Failf("modified", "%s: the given data was modified: %s", what, d)
		return
	}
	if clipped {
		c.Count("clipped columns", 1)
	}
	c.NonTrivial()
	c.Count("graphs", 1)
	c.Sig("graph", cw, ch, len(cols), t.how)
	if c.Index < 2 {
		c.Sample(what)
	}
}

//
// views
//

// viewCase writes pixels of views and images of them.
func viewCase(c *hk.C) {
	f := frame(c, c.Range(1, 20), c.Range(1, 20), false)
	var img *image.RGBA
	c.Guard("image", func() { img = f.view.AsImage() })
	if c.Failed() {
		return
	}
	if b := img.Bounds(); b != image.Rect(0, 0, f.w, f.h) {
		c.Failf("image", "the image of a %s of %dx%d is %v", f.how, f.w, f.h, b)
		return
	}
	for i := 0; i < 50; i++ {
		x, y := c.Intn(f.w), c.Intn(f.h)
		col := draw.Color{R: uint8(c.Intn(256)), G: uint8(c.Intn(256)), B: uint8(c.Intn(256))}
		c.Guard("set", func() { f.view.Set(x, y, col) })
		if c.Failed() {
			return
		}
		want := []byte{col.R, col.G, col.B, 255}
		raw := f.view.Raw(x, y)
		px := img.RGBAAt(x, y)
		if !bytes.Equal(f.at(x, y), want) || !bytes.Equal(raw, want) || px.R != col.R || px.G != col.G || px.B != col.B || px.A != 255 {
			c.Failf("set", "pixel %d,%d of a %s was set to %v, it is %v in memory, %v raw and %v in the image", x, y, f.how, want, f.at(x, y), raw, px)
			return
		}
	}
	if d := f.outside(f.w, f.h); d != "" {
		c.Failf("outside", "%s", d)
		return
	}
	c.NonTrivial()
	c.Sig("view", f.w, f.h, f.x, f.y)
}

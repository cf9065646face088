package main

import (
	"fmt"
	"image"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/draw"
	"github.com/vivint/rothko/draw/axis"
	"github.com/vivint/rothko/draw/graph"
	"github.com/vivint/rothko/draw/iosevka"
	"github.com/vivint/rothko/draw/observations"
	"github.com/vivint/rothko/internal/zzverif/hk"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

//
// reading the text of drawings
//

// glyphs are looked at down to the base line, because the lowest labels may be
// cut there, and not quite up to their top, where ticks may end.
const glyphW, glyphTop, glyphH = 6, 2, 11

// glyphs maps what a character looks like to the character.
var glyphs = func() map[string]byte {
	out := make(map[string]byte)
	for _, ch := range []byte("0123456789.+-@/:obsecInfNa") {
		img := image.NewGray(image.Rect(0, 0, glyphW, glyphH))
		for i := range img.Pix {
			img.Pix[i] = 255
		}
		(&font.Drawer{Dst: img, Src: image.Black, Face: iosevka.Iosevka, Dot: fixed.P(0, 11)}).DrawString(string(ch))
		out[string(img.Pix[glyphTop*glyphW:])] = ch
	}
	return out
}()

type pixels func(x, y int) byte

// readAt reads the text that starts at exactly this place. It ends in front of
// two spaces.
func readAt(at pixels, x, y, end int) (out string, ok bool) {
	var cell [glyphW * (glyphH - glyphTop)]byte
	spaces := 0
	for ; x+glyphW <= end; x += glyphW {
		blank := true
		for j := glyphTop; j < glyphH; j++ {
			for i := 0; i < glyphW; i++ {
				v := at(x+i, y+j)
				cell[(j-glyphTop)*glyphW+i] = v
				blank = blank && v == 255
			}
		}
		if blank {
			if spaces++; spaces == 2 {
				break
			}
			out += " "
			continue
		}
		ch, found := glyphs[string(cell[:])]
		if !found && spaces > 0 && out != "" {
			break // of the next label
		}
		if !found {
			return "", false
		}
		spaces = 0
		out += string(ch)
	}
	out = strings.TrimRight(out, " ")
	return out, out != "" && out[0] != ' '
}

// read finds the longest text that starts in the area.
func read(at pixels, x0, y0, x1, y1, end int) (best string) {
	for y := y0; y < y1; y++ {
		for x := x0; x < x1; x++ {
			if s, ok := readAt(at, x, y, end); ok && len(s) > len(best) {
				best = s
			}
		}
	}
	return best
}

// checkLabels reads the labels of a drawn graph.
func checkLabels(c *hk.C, m graph.Measured, opts graph.MeasureOptions, dst dist.Dist, maxObs float64, inside bool, w, h int, raw func(x, y int) []byte) string {
	at := func(x, y int) byte {
		if x < 0 || y < 0 || x >= w || y >= h {
			return 255
		}
		p := raw(x, y)
		if p[0] != p[1] || p[1] != p[2] {
			return 254 // no text
		}
		return p[0]
	}
	dark := func(x, y, dx, dy, n int) bool {
		for i := 0; i < n; i++ {
			if at(x+i*dx, y+i*dy) != 0 {
				return false
			}
		}
		return true
	}

	// left of the heatmap are the quantiles, to the right the values there
	left, right := 0, 0
	for y := 0; y < m.Height; y++ {
		lo := 1 - (float64(y)+1.5)/math.Max(1, float64(m.Height-1))
		hi := 1 - (float64(y)-.5)/math.Max(1, float64(m.Height-1))
		if dark(m.X-2, m.Y+y, -1, 0, 5) {
			left++
			s := read(at, 0, m.Y+y-2, m.X-2, m.Y+y+4, m.X-11)
			v, err := strconv.ParseFloat(s, 64)
			if err != nil || v < lo-.0051 || v > hi+.0051 {
				return fmt.Sprintf("the label on the left at row %d of %d is %q, should be between %v and %v", y, m.Height, s, lo, hi)
			}
		}
		x := m.X + m.Width + 5 + 10
		if dst != nil && dark(x+1, m.Y+y, 1, 0, 5) {
			right++
			s := read(at, x+11, m.Y+y-2, x+16, m.Y+y+4, w)
			v, err := strconv.ParseFloat(s, 64)
			a, b := dst.Query(math.Max(0, lo)), dst.Query(math.Min(1, hi))
			slack := .006 * math.Max(math.Abs(a), math.Abs(b))
			if err != nil || v < a-slack || v > b+slack {
				return fmt.Sprintf("the label on the right at row %d of %d is %q, should be between %v and %v", y, m.Height, s, a, b)
			}
		}
	}
	if left < 1 || dst != nil && right != left {
		return fmt.Sprintf("there are %d labels on the left and %d on the right", left, right)
	}

	// below are times
	length, y := m.Width+2, m.Y+m.Height
	if length < 100 {
		return ""
	}
	times, last, crowded := 0, -1, 0
	for x := 0; x < length; x++ {
		if dark(m.X-1+x, y+1, 0, 1, 13) {
			last = x
			if x < 10 {
				crowded++ // these are drawn even if they overlap
			}
		}
	}
	nanos := float64(opts.Duration) / float64(length-1)
	for x := 0; x < length; x++ {
		if !dark(m.X-1+x, y+1, 0, 1, 13) || x < 10 && crowded > 1 {
			continue
		}
		lo := opts.Now - int64(float64(opts.Duration)-nanos*(float64(x)-.5))
		hi := opts.Now - int64(float64(opts.Duration)-nanos*(float64(x)+1.5))
		first := x
		if x == last && first > length-14*glyphW {
			first = length - 14*glyphW // it may have been moved to fit
		}
		ok, s := false, ""
		for start := first; start <= x && !ok; start++ {
			s = read(at, m.X-1+start, y+12, m.X+start, y+17, w)
			for t := time.Unix(0, lo).Truncate(time.Minute).UnixNano(); s != "" && t <= hi && !ok; t += int64(time.Minute) {
				ok = time.Unix(0, t).Format("1/2 @ 15:04") == s
			}
		}
		if !ok {
			return fmt.Sprintf("the label below column %d of %d is %q, should be between %v and %v", x, length, s,
				time.Unix(0, lo).Format("1/2 @ 15:04"), time.Unix(0, hi).Format("1/2 @ 15:04"))
		}
		times++
	}

	// above is the highest rate
	rates := 0
	if inside && m.Width >= 19*glyphW {
		want := fmt.Sprintf("obs/sec: %#.3g", maxObs)
		got := read(at, m.X, opts.Padding-4, m.X+m.Width, opts.Padding+4, m.X+m.Width)
		if got != want {
			return fmt.Sprintf("the label above is %q, should be %q", got, want)
		}
		rates++
	}
	c.Count("labels read: quantiles", int64(left))
	c.Count("labels read: values", int64(right))
	c.Count("labels read: times", int64(times))
	c.Count("labels read: rates", int64(rates))
	return ""
}

// checkTicks looks at the pixels next to an axis, which belong to its ticks.
func checkTicks(opts axis.Options, m axis.Measured, ref *draw.RGB) string {
	tick := make([]int, opts.Length) // 1: there may be one, 2: there must be
	for _, label := range opts.Labels {
		p := float64(opts.Length-1) * label.Position
		for _, f := range []float64{p, p - 1e-6, p + 1e-6} {
			if i := int(math.Floor(f)); i >= 0 && i < len(tick) && tick[i] == 0 {
				tick[i] = 1
			}
		}
		tick[int(p)] = 2
	}
	for i := range tick {
		for d := 1; d <= 5; d++ {
			x, y := i, d
			if opts.Vertical {
				x, y = d, i
				if opts.Flip {
					x = m.Width - 1 - d
				}
			}
			p := at(ref, x, y)
			switch {
			case tick[i] == 2 && p[0]|p[1]|p[2] != 0:
				return fmt.Sprintf("there is no tick at %d: pixel %d,%d is %v", i, x, y, p)
			case tick[i] == 0 && p[0]&p[1]&p[2] != 255:
				return fmt.Sprintf("there is something at %d, where no label is: pixel %d,%d is %v", i, x, y, p)
			}
		}
	}
	return ""
}

// readable limits access to the pixels to those that are there.
func readable(raw func(x, y int) []byte) func(x, y, w, h int) byte {
	return func(x, y, w, h int) byte {
		if x < 0 || y < 0 || x >= w || y >= h {
			return 255
		}
		p := raw(x, y)
		if p[0] != p[1] || p[1] != p[2] {
			return 254
		}
		return p[0]
	}
}

// checkRate reads the label of a bar of observations.
func checkRate(m observations.Measured, cols []draw.Column, at func(x, y, w, h int) byte) string {
	max := 0.0
	for _, col := range cols {
		if col.X < 0 {
			return ""
		}
		max = math.Max(max, col.ObsSec)
	}
	want := fmt.Sprintf("obs/sec: %#.3g", max)
	if m.Width < 17*glyphW || len(want) > 17 {
		return ""
	}
	got := read(func(x, y int) byte { return at(x, y, m.Width, m.Height) }, 0, -3, m.Width, 4, m.Width)
	if got != want {
		return fmt.Sprintf("the label is %q, should be %q", got, want)
	}
	return ""
}

package main

import (
	"fmt"
	"image"
	"image/color"
	"math"

	"mc/model"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
	svgrasterx "github.com/lafriks/go-svg/renderer/rasterx"

	"github.com/srwiley/rasterx"
	"golang.org/x/image/math/fixed"
)

// scan is one scan conversion: the outline since the last clearing, rule and colour.
type scan struct {
	polys   [][]fixed.Point26_6
	nonZero bool
	color   interface{}
	clip    image.Rectangle
}

// recScanner records scan conversions.
type recScanner struct {
	cur   scan
	scans []scan
}

func (r *recScanner) Start(a fixed.Point26_6) {
	r.cur.polys = append(r.cur.polys, []fixed.Point26_6{a})
}
func (r *recScanner) Line(b fixed.Point26_6) {
	if len(r.cur.polys) == 0 {
		r.cur.polys = append(r.cur.polys, []fixed.Point26_6{{}})
	}
	n := len(r.cur.polys) - 1
	r.cur.polys[n] = append(r.cur.polys[n], b)
}
func (r *recScanner) Draw() {
	c := r.cur
	c.polys = append([][]fixed.Point26_6{}, r.cur.polys...)
	for i := range c.polys {
		c.polys[i] = append([]fixed.Point26_6{}, c.polys[i]...)
	}
	r.scans = append(r.scans, c)
}
func (r *recScanner) GetPathExtent() fixed.Rectangle26_6 { return extentOf(r.cur.polys) }
func (r *recScanner) SetBounds(w, h int)                 {}
func (r *recScanner) SetColor(c interface{})             { r.cur.color = c }
func (r *recScanner) SetWinding(nz bool)                 { r.cur.nonZero = nz }
func (r *recScanner) Clear()                             { r.cur.polys = nil }
func (r *recScanner) SetClip(c image.Rectangle)          { r.cur.clip = c }

func extentOf(polys [][]fixed.Point26_6) (e fixed.Rectangle26_6) {
	first := true
	for _, p := range polys {
		for _, q := range p {
			if first {
				e = fixed.Rectangle26_6{Min: q, Max: q}
				first = false
				continue
			}
			if q.X < e.Min.X {
				e.Min.X = q.X
			}
			if q.Y < e.Min.Y {
				e.Min.Y = q.Y
			}
			if q.X > e.Max.X {
				e.Max.X = q.X
			}
			if q.Y > e.Max.Y {
				e.Max.Y = q.Y
			}
		}
	}
	return
}

func toFx(p pt) fixed.Point26_6 {
	return fixed.Point26_6{X: fixed.Int26_6(p.X * 64), Y: fixed.Int26_6(p.Y * 64)}
}

var rxCaps = map[svg.CapMode]rasterx.CapFunc{svg.ButtCap: rasterx.ButtCap, svg.NilCap: rasterx.ButtCap, svg.RoundCap: rasterx.RoundCap, svg.SquareCap: rasterx.SquareCap, svg.CubicCap: rasterx.CubicCap, svg.QuadraticCap: rasterx.QuadraticCap}
var rxJoins = map[svg.JoinMode]rasterx.JoinMode{svg.Arc: rasterx.Arc, svg.ArcClip: rasterx.ArcClip, svg.Miter: rasterx.Miter, svg.MiterClip: rasterx.MiterClip, svg.Round: rasterx.Round, svg.Bevel: rasterx.Bevel}
var rxGaps = map[svg.GapMode]rasterx.GapFunc{svg.NilGap: rasterx.FlatGap, svg.FlatGap: rasterx.FlatGap, svg.RoundGap: rasterx.RoundGap, svg.CubicGap: rasterx.CubicGap, svg.QuadraticGap: rasterx.QuadraticGap}

// refScan scans one paint with a fresh rasterx dasher.
func refScan(w paint) scan {
	rec := &recScanner{}
	d := rasterx.NewDasher(64, 64, rec)
	var a rasterx.Adder = &d.Filler
	d.SetWinding(w.nonZero)
	if w.stroke {
		a = d
		lead := rxCaps[w.lead]
		if w.lead == svg.NilCap {
			lead = rxCaps[w.cap]
		}
		dash := make([]float64, len(w.dash))
		for i, v := range w.dash {
			dash[i] = math.Max(v, 1.0/1024)
		}
		d.SetStroke(fixed.Int26_6(w.width*64), fixed.Int26_6(w.miter*64), lead, rxCaps[w.cap], rxGaps[w.gap], rxJoins[w.join], dash, w.offset)
	}
	for _, s := range w.subs {
		at := toFx(s.Start)
		a.Start(at)
		for _, g := range s.Segs {
			switch g.Kind {
			case 'L':
				a.Line(toFx(g.P[0]))
			case 'Q':
				if b, c := toFx(g.P[0]), toFx(g.P[1]); w.stroke && (b == at || b == c) {
					a.Line(c) // the same curve, and rasterx can not stroke it as a curve
				} else {
					a.QuadBezier(b, c)
				}
			case 'C':
				a.CubeBezier(toFx(g.P[0]), toFx(g.P[1]), toFx(g.P[2]))
			}
			at = toFx(g.P[map[byte]int{'L': 0, 'Q': 1, 'C': 2}[g.Kind]])
		}
		a.Stop(s.Closed)
	}
	d.Draw()
	return rec.scans[0]
}

// tidy drops repeated points and polygons without lines.
func tidy(polys [][]fixed.Point26_6) (out [][]fixed.Point26_6) {
	for _, p := range polys {
		var q []fixed.Point26_6
		for _, v := range p {
			if len(q) == 0 || q[len(q)-1] != v {
				q = append(q, v)
			}
		}
		if len(q) > 1 {
			out = append(out, q)
		}
	}
	return
}

func samePolys(a, b [][]fixed.Point26_6) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if a[i][j] != b[i][j] {
				return false
			}
		}
	}
	return true
}

// cover scans polygons to a coverage image.
func cover(polys [][]fixed.Point26_6, nonZero bool) *image.RGBA {
	img := image.NewRGBA(image.Rect(0, 0, 64, 48))
	s := rasterx.NewScannerGV(64, 48, img, img.Bounds())
	s.SetWinding(nonZero)
	s.SetColor(color.NRGBA{255, 255, 255, 255})
	for _, p := range polys {
		for i, q := range p {
			q.X += 20 * 64
			q.Y += 12 * 64
			if i == 0 {
				s.Start(q)
			} else {
				s.Line(q)
			}
		}
	}
	s.Draw()
	return img
}

// cmpPolys compares scanned outlines: equal points, or the same coverage up to rounding.
func cmpPolys(got, want [][]fixed.Point26_6, nonZero bool) string {
	g, w := tidy(got), tidy(want)
	if samePolys(g, w) {
		return ""
	}
	a, b := cover(g, nonZero), cover(w, nonZero)
	sum, worst, at := 0, 0, 0
	for i := 3; i < len(a.Pix); i += 4 {
		d := int(a.Pix[i]) - int(b.Pix[i])
		if d < 0 {
			d = -d
		}
		sum += d
		if d > worst {
			worst, at = d, i/4
		}
	}
	if worst > 28 {
		return fmt.Sprintf("the outline differs: coverage at (%d,%d) off by %d (total %d)", at%64-20, at/64-12, worst, sum)
	}
	return ""
}

// stopColour interpolates the stops (sorted, distinct offsets) at t in 0..1.
func stopColour(stops []svg.GradStop, t float64) (rgb [3]float64, op float64) {
	c := func(s svg.GradStop) [3]float64 {
		v := asRGB(s.StopColor)
		return [3]float64{float64(v.R), float64(v.G), float64(v.B)}
	}
	if t <= stops[0].Offset {
		return c(stops[0]), stops[0].Opacity
	}
	for i := 1; i < len(stops); i++ {
		if t <= stops[i].Offset {
			f := (t - stops[i-1].Offset) / (stops[i].Offset - stops[i-1].Offset)
			a, b := c(stops[i-1]), c(stops[i])
			for k := range rgb {
				rgb[k] = a[k]*(1-f) + b[k]*f
			}
			return rgb, stops[i-1].Opacity*(1-f) + stops[i].Opacity*f
		}
	}
	l := stops[len(stops)-1]
	return c(l), l.Opacity
}

func spread(t float64, s svg.SpreadMethod) float64 {
	switch s {
	case svg.ReflectSpread:
		t = math.Mod(t, 2)
		if t < 0 {
			t += 2
		}
		if t > 1 {
			t = 2 - t
		}
	case svg.RepeatSpread:
		t = math.Mod(t, 1)
		if t < 0 {
			t++
		}
	}
	return math.Max(0, math.Min(1, t))
}

// gradAt evaluates a gradient at a device point as SVG defines; box is the object bounding box in device space.
func gradAt(g *svg.Gradient, m model.Mat, box fixed.Rectangle26_6, dev pt) (t float64, ok bool) {
	space := m
	if g.Units == svg.ObjectBoundingBox {
		x, y := float64(box.Min.X)/64, float64(box.Min.Y)/64
		space = model.Mat{A: float64(box.Max.X)/64 - x, D: float64(box.Max.Y)/64 - y, E: x, F: y}
	}
	inv, ok := invert(space.Mul(mat(g.Matrix)))
	if !ok {
		return 0, false
	}
	p := inv.At(dev)
	switch d := g.Direction.(type) {
	case svg.Linear:
		dx, dy := d[2]-d[0], d[3]-d[1]
		l := dx*dx + dy*dy
		if l == 0 {
			return 0, false
		}
		return ((p.X-d[0])*dx + (p.Y-d[1])*dy) / l, true
	case svg.Radial:
		if d[0] != d[2] || d[1] != d[3] || d[5] != 0 || d[4] == 0 {
			return 0, false
		}
		return math.Hypot(p.X-d[0], p.Y-d[1]) / d[4], true
	}
	return 0, false
}

// conformal maps keep right angles, which is what rasterx needs to evaluate user space gradients.
func conformal(m model.Mat) bool {
	return math.Abs(m.A*m.C+m.B*m.D) < 1e-9 && math.Abs(math.Hypot(m.A, m.B)-math.Hypot(m.C, m.D)) < 1e-9
}

// cmpGradScan compares the colour function of a scan with the gradient.
func cmpGradScan(c interface{}, w paint, polys [][]fixed.Point26_6) string {
	g := w.grad
	box := extentOf(polys)
	// rasterx evaluated with the gradient as given
	rg := rasterx.Gradient{Matrix: rasterx.Matrix2D(g.Matrix), Spread: rasterx.SpreadMethod(g.Spread), Units: rasterx.GradientUnits(g.Units)}
	switch d := g.Direction.(type) {
	case svg.Linear:
		copy(rg.Points[:], d[:])
	case svg.Radial:
		rg.IsRadial = true
		copy(rg.Points[:], d[:5])
	}
	for _, s := range g.Stops {
		rg.Stops = append(rg.Stops, rasterx.GradStop{StopColor: s.StopColor, Offset: s.Offset, Opacity: s.Opacity})
	}
	rg.Bounds = struct{ X, Y, W, H float64 }{g.Bounds.X, g.Bounds.Y, g.Bounds.W, g.Bounds.H}
	if g.Units == svg.ObjectBoundingBox {
		x, y := float64(box.Min.X)/64, float64(box.Min.Y)/64
		rg.Bounds = struct{ X, Y, W, H float64 }{x, y, float64(box.Max.X)/64 - x, float64(box.Max.Y)/64 - y}
	}
	want := rg.GetColorFunctionUS(w.opacity, rasterx.Matrix2D{A: w.m.A, B: w.m.B, C: w.m.C, D: w.m.D, E: w.m.E, F: w.m.F})
	if wc, ok := want.(color.Color); ok {
		gc, ok := c.(color.Color)
		if !ok {
			return fmt.Sprintf("painted with a %T instead of a colour", c)
		}
		return closeColour(nrgba(gc), nrgba(wc), 2)
	}
	f, ok := c.(rasterx.ColorFunc)
	if !ok {
		return fmt.Sprintf("painted with %T instead of a colour function", c)
	}
	wf := want.(rasterx.ColorFunc)
	own := conformal(w.m) && conformal(mat(g.Matrix)) || g.Units == svg.ObjectBoundingBox
	if d, ok := g.Direction.(svg.Linear); ok && g.Units == svg.ObjectBoundingBox {
		own = d[0] == d[2] || d[1] == d[3] // rasterx takes right angles on the device
	}
	if _, ok := g.Direction.(svg.Radial); ok && g.Units == svg.UserSpaceOnUse {
		own = w.m.B == 0 && w.m.C == 0 && g.Matrix.B == 0 && g.Matrix.C == 0 // rasterx keeps the axes of the radius
	}
	own = own && len(g.Stops) > 1
	for i := 1; i < len(g.Stops); i++ {
		own = own && g.Stops[i].Offset > g.Stops[i-1].Offset
	}
	for y := -3; y < 20; y += 2 {
		for x := -3; x < 30; x += 2 {
			a, b := nrgba(f(x, y)), nrgba(wf(x, y))
			if e := closeColour(a, b, 4); e != "" {
				// rounding of the parameters can matter next to a seam
				if seam(wf, x, y, a) {
					continue
				}
				return fmt.Sprintf("gradient at (%d,%d): %s", x, y, e)
			}
			if !own || (g.Spread == svg.RepeatSpread) {
				continue
			}
			t, ok := gradAt(g, w.m, box, pt{X: float64(x) + .5, Y: float64(y) + .5})
			if !ok {
				continue
			}
			rgb, op := stopColour(g.Stops, spread(t, g.Spread))
			ref := color.NRGBA{uint8(rgb[0]), uint8(rgb[1]), uint8(rgb[2]), uint8(op * w.opacity * 255)}
			if e := closeColour(a, ref, 12); e != "" {
				return fmt.Sprintf("gradient at (%d,%d), offset %.3f: %s", x, y, t, e)
			}
		}
	}
	return ""
}

func seam(f rasterx.ColorFunc, x, y int, c color.NRGBA) bool {
	for dy := -1; dy <= 1; dy++ {
		for dx := -1; dx <= 1; dx++ {
			if (dx != 0 || dy != 0) && closeColour(c, nrgba(f(x+dx, y+dy)), 40) == "" {
				return closeColour(nrgba(f(x, y)), nrgba(f(x+dx, y+dy)), 60) != ""
			}
		}
	}
	return false
}

func closeColour(a, b color.NRGBA, tol int) string {
	d := func(p, q uint8) int {
		v := int(p) - int(q)
		if v < 0 {
			return -v
		}
		return v
	}
	if d(a.A, b.A) > tol {
		return fmt.Sprintf("colour %v instead of %v", a, b)
	}
	if a.A == 0 || b.A == 0 {
		return ""
	}
	if d(a.R, b.R) > tol || d(a.G, b.G) > tol || d(a.B, b.B) > tol {
		return fmt.Sprintf("colour %v instead of %v", a, b)
	}
	return ""
}

func cmpScan(g scan, w paint) string {
	ref := refScan(w)
	if e := cmpPolys(g.polys, ref.polys, w.nonZero); e != "" {
		return e
	}
	if g.nonZero != w.nonZero {
		return fmt.Sprintf("scanned with nonzero rule %v instead of %v", g.nonZero, w.nonZero)
	}
	if w.grad != nil {
		e := cmpGradScan(g.color, w, ref.polys)
		if e != "" && extentOf(g.polys) != extentOf(ref.polys) && extentOf(tidy(g.polys)) == extentOf(tidy(ref.polys)) {
			// single points paint nothing, and may belong to the outline or not
			return cmpGradScan(g.color, w, g.polys)
		}
		return e
	}
	c, ok := g.color.(color.Color)
	if !ok {
		return fmt.Sprintf("painted with a %T", g.color)
	}
	return cmpPlain(c, w.rgb, w.opacity)
}

func (x *X) checkScans(rec *recScanner, d *rasterx.Dasher, dr *drawing) {
	from := len(rec.scans)
	want, err := refPaints(dr)
	if err != "" {
		x.Failf("%s", err)
	}
	x.Call("Draw", func() { svgrasterx.Draw(d, dr.s, dr.opts...) })
	got := rec.scans[from:]
	for i := 0; i < len(got) && i < len(want); i++ {
		if e := cmpScan(got[i], want[i]); e != "" {
			x.Failf("scan %d: %s", i, e)
		}
		x.Outcome(fmt.Sprint(got[i].polys, got[i].nonZero))
	}
	if len(got) != len(want) {
		x.Failf("%d scans instead of %d", len(got), len(want))
	}
}

func newRecDasher() (*recScanner, *rasterx.Dasher) {
	rec := &recScanner{}
	return rec, rasterx.NewDasher(64, 48, rec)
}

func runC20(n int) func(x *X) {
	return func(x *X) {
		dr := x.drawing(n, false)
		rec, d := newRecDasher()
		x.checkScans(rec, d, dr)
	}
}

func runC20Prior(x *X) {
	rec, d := newRecDasher()
	switch x.Choose(7) {
	case 1:
		d.SetColor(color.Black)
		d.SetWinding(false)
	case 2:
		d.SetStroke(9*64, 64, rasterx.RoundCap, rasterx.SquareCap, rasterx.CubicGap, rasterx.Round, []float64{3, 4}, 2)
	case 3:
		d.Start(fixed.P(1, 1))
		d.Line(fixed.P(9, 9))
		d.Stop(true)
	case 4:
		d.Filler.Start(fixed.P(1, 1))
		d.Filler.Line(fixed.P(9, 9))
	case 5:
		d.SetStroke(9*64, 64, rasterx.RoundCap, rasterx.SquareCap, rasterx.CubicGap, rasterx.Round, []float64{3, 4}, 2)
		d.Start(fixed.P(1, 1))
		d.Line(fixed.P(9, 9))
		d.Stop(false)
		d.Draw()
	case 6:
		d.SetColor(rasterx.ColorFunc(func(x, y int) color.Color { return color.White }))
		d.Filler.SetWinding(true)
	}
	dr := x.drawing(2, false)
	x.checkScans(rec, d, dr)
	x.checkScans(rec, d, dr)
}

// gradients: kinds, units, spread, transforms, stops
func runC20Grad(x *X) {
	n := model.E("linearGradient", "id", "g")
	radial := x.Bool()
	if radial {
		n.Name = "radialGradient"
	}
	user := x.Bool()
	if user {
		n.Set("gradientUnits", "userSpaceOnUse")
		if radial {
			n.Set("cx", "5").Set("cy", "4").Set("r", x.Pick("4", "2.5"))
			if x.Dev(2) == 1 {
				n.Set("fx", "6").Set("fy", "3")
			}
		} else {
			n.Set("x1", x.Pick("1", "6")).Set("y1", x.Pick("0", "3")).Set("x2", "8").Set("y2", x.Pick("0", "7"))
		}
	} else if radial {
		n.Set("cx", x.Pick("0.5", "20%")).Set("r", x.Pick("0.5", "0.3"))
		if x.Dev(2) == 1 {
			n.Set("fx", "0.4")
		}
	} else {
		n.Set("x1", x.Pick("0", "30%")).Set("y1", x.Pick("0", "0.25")).Set("x2", x.Pick("1", "0.8")).Set("y2", x.Pick("0", "1"))
	}
	if s := x.DevPick("", "reflect", "repeat"); s != "" {
		n.Set("spreadMethod", s)
	}
	if t := x.DevPick("", "translate(0.5 0.25)", "scale(2)", "rotate(40)", "matrix(1 0 .5 1 0 0)", "scale(1 2)"); t != "" {
		n.Set("gradientTransform", t)
	}
	stops := [][][3]string{
		{{"0", "#ff0000", "1"}, {"1", "#0000ff", "1"}},
		{{"0.2", "#ff0000", "0.5"}, {"0.5", "#00ff00", "1"}, {"0.9", "#0000ff", "0"}},
		{{"0.5", "#ff0000", "0.5"}},
		{},
		{{"0.7", "#ff0000", "1"}, {"0.3", "#0000ff", "0.75"}},
		{{"0", "#ff8000", "1"}, {"0.5", "#0080ff", "1"}, {"0.5", "#ffffff", "1"}, {"1", "#000000", "1"}},
	}
	for _, s := range stops[x.Dev(len(stops))] {
		n.Add(model.E("stop", "offset", s[0], "stop-color", s[1], "stop-opacity", s[2]))
	}
	shape := x.DevPick(`<rect x="1" y="2" width="8" height="5"`, `<path d="M1 1L9 2 5 7z"`, `<circle cx="5" cy="4" r="3"`, `<path d="M0 1L5 7"`)
	how := x.DevPick(` fill="url(#g)"`, ` fill="none" stroke="url(#g)"`, ` fill="url(#g)" stroke="url(#g)" stroke-dasharray="3 1"`, ` fill="url(#g)" fill-opacity="0.5"`, ` stroke="url(#g)" stroke-opacity="0.25"`)
	tr := x.DevPick("", "translate(3 1)", "scale(2)", "scale(2 .5)", "rotate(30)", "matrix(1 .2 -.3 1 2 0)")
	el := shape + how + ` transform="` + tr + `"/>`
	switch x.Dev(3) {
	case 1:
		el = shape + ` fill="#123456" stroke="#654321"/>` + el
	case 2:
		el += shape + ` fill="url(#g)" transform="scale(.5)"/>`
	}
	dr := &drawing{text: `<svg viewBox="0 0 12 8">` + n.XML() + el + `</svg>`}
	x.Desc(func() string { return dr.optText + dr.text })
	p := x.parse(dr.text, svg.StrictErrorMode)
	if p.err != nil {
		x.Failf("parsing failed: %v", p.err)
	}
	dr.s = p.s
	x.options(dr.s, dr)
	x.State(dr.text, dr.optText)
	rec, d := newRecDasher()
	x.checkScans(rec, d, dr)
}

var _ renderer.RenderOption = renderer.Opacity(1)

func init() {
	register(&Property{ID: "C20", Rule: "each execution draws one document with the real renderer on a rasterx dasher whose scanner records; the scans are compared with those of a fresh dasher driven from the parsed document, colour functions on a grid of pixels with an independent gradient evaluation",
		Assumptions: []string{"rasterx's own stroking, dashing and flattening are taken as given (they produce the reference outlines)", "object bounding boxes are the extent of the scanned outline on the device; rasterx ignores fr and evaluates user space gradients only under conformal maps exactly"},
		Drivers: []*Driver{
			{Name: "one", Quick: 3, Thorough: 4, Run: runC20(1), Note: "1 shape, <= 3 (4) deviations in geometry, 15 style attributes, viewBox, target, opacity"},
			{Name: "two", Quick: 3, Thorough: 4, Run: runC20(2), Note: "2 shapes, <= 3 (4) deviations"},
			{Name: "three", Quick: 2, Thorough: 3, Run: runC20(3), Note: "3 shapes, <= 2 (3) deviations"},
			{Name: "geom1", Quick: 1, Thorough: 2, Run: runGeometry(1, 1, func(x *X, d *drawing) { rec, r := newRecDasher(); x.checkScans(rec, r, d) }), Note: "all paths of 1 command M, L, Q, C, z over 9 points, open and closed, filled, stroked, dashed; <= 1 (2) deviations in transform and options"},
			{Name: "geom2", Quick: 0, Thorough: 1, Run: runGeometry(2, 2, func(x *X, d *drawing) { rec, r := newRecDasher(); x.checkScans(rec, r, d) }), Note: "all paths of 2 commands over 4 points"},
			{Name: "geom3", Quick: 0, Thorough: 0, QuickOff: true, Run: runGeometry(3, 3, func(x *X, d *drawing) { rec, r := newRecDasher(); x.checkScans(rec, r, d) }), Note: "all paths of 3 commands over 4 points"},
			{Name: "prior", Quick: 1, Thorough: 2, Run: runC20Prior, Note: "7 prior states of the dasher, 2 shapes, drawn twice"},
			{Name: "grad", Quick: 2, Thorough: 3, Run: runC20Grad, Note: "linear and radial gradients over vectors and units, <= 2 (3) deviations in spread, transform, stops, shape, use, transform, neighbours, options"},
		}})
}

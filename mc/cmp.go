package main

// Conformance: comparison of what the real code produced with the reference model's prediction.

import (
	"fmt"
	"image/color"
	"math"
	"strings"

	"mc/model"

	svg "github.com/lafriks/go-svg"
	"golang.org/x/image/math/fixed"
)

type pt = model.Pt

func fx(p fixed.Point26_6) pt { return pt{X: float64(p.X) / 64, Y: float64(p.Y) / 64} }

type rsub struct {
	Start  pt
	Segs   []model.Seg
	Closed bool
	Moved  bool // started by an explicit moveto
}

// realSubs splits a parsed path in subpaths. Drawing after a close starts at the closed subpath's start.
func realSubs(p svg.Path) (out []rsub, err string) {
	var start pt
	open := false
	add := func(s model.Seg) {
		if !open {
			out = append(out, rsub{Start: start})
			open = true
		}
		l := &out[len(out)-1]
		l.Segs = append(l.Segs, s)
	}
	for i, op := range p {
		if i == 0 {
			if _, ok := op.(svg.OpMoveTo); !ok {
				return nil, "path does not start with a moveto"
			}
		}
		switch o := op.(type) {
		case svg.OpMoveTo:
			start = fx(fixed.Point26_6(o))
			out = append(out, rsub{Start: start, Moved: true})
			open = true
		case svg.OpLineTo:
			add(model.Seg{Kind: 'L', P: [3]pt{fx(fixed.Point26_6(o))}})
		case svg.OpQuadTo:
			add(model.Seg{Kind: 'Q', P: [3]pt{fx(o[0]), fx(o[1])}})
		case svg.OpCubicTo:
			add(model.Seg{Kind: 'C', P: [3]pt{fx(o[0]), fx(o[1]), fx(o[2])}})
		case svg.OpClose:
			if !open {
				out = append(out, rsub{Start: start})
			}
			out[len(out)-1].Closed = true
			open = false
		default:
			return nil, fmt.Sprintf("unknown operation %T", op)
		}
	}
	return
}

// normSubs drops single-point subpaths that repeat the start of the closed subpath before them (z z, or z
// followed by a command that draws nothing).
func normSubs(in []rsub) []rsub {
	drop := false
	for i, s := range in {
		if i > 0 && len(s.Segs) == 0 && in[i-1].Closed && near(s.Start, in[i-1].Start, 1.0/32) {
			drop = true
		}
	}
	if !drop {
		return in
	}
	var out []rsub
	for i, s := range in {
		if i > 0 && len(s.Segs) == 0 && in[i-1].Closed && near(s.Start, in[i-1].Start, 1.0/32) {
			continue
		}
		out = append(out, s)
	}
	return out
}

func modelSubs(g model.Geom) []rsub {
	out := make([]rsub, len(g.Subs))
	for i, s := range g.Subs {
		out[i] = rsub{s.Start, s.Segs, s.Closed, true}
	}
	return out
}

func near(a, b pt, tol float64) bool {
	return math.Abs(a.X-b.X) <= tol && math.Abs(a.Y-b.Y) <= tol
}

func mat(m svg.Matrix2D) model.Mat { return model.Mat{A: m.A, B: m.B, C: m.C, D: m.D, E: m.E, F: m.F} }

func mapSeg(m model.Mat, s model.Seg) model.Seg {
	for i := range s.P {
		s.P[i] = m.At(s.P[i])
	}
	return s
}

const quantum = 1.0 / 64

// cmpGeom compares real geometry (path p under transform T) with model geometry g under transform M.
func cmpGeom(p svg.Path, T model.Mat, g model.Geom, M model.Mat) string {
	rs, e := realSubs(p)
	if e != "" {
		return e
	}
	if g.Outline {
		return cmpOutline(rs, T, g, M)
	}
	rs = normSubs(rs)
	ms := normSubs(modelSubs(g))
	if len(rs) != len(ms) {
		return fmt.Sprintf("got %d subpaths, want %d", len(rs), len(ms))
	}
	n := math.Max(T.Norm(), math.Max(math.Abs(T.A)+math.Abs(T.C), math.Abs(T.B)+math.Abs(T.D)))
	tol := quantum*n*1.001 + 1e-6*(1+n)
	for i := range rs {
		r, m := rs[i], ms[i]
		a, b := T.At(r.Start), M.At(m.Start)
		if !near(a, b, tol) {
			return fmt.Sprintf("subpath %d starts at %v, want %v", i, a, b)
		}
		if r.Closed != m.Closed {
			return fmt.Sprintf("subpath %d closed=%v, want %v", i, r.Closed, m.Closed)
		}
		k := 0
		cur := a
		for j, s := range m.Segs {
			if s.Kind == 'A' {
				used, e := cmpArc(cur, r.Segs[k:], T, s, M)
				if e != "" {
					return fmt.Sprintf("subpath %d segment %d (arc): %s", i, j, e)
				}
				k += used
				cur = M.At(s.P[0])
				continue
			}
			if k >= len(r.Segs) {
				return fmt.Sprintf("subpath %d has only %d segments, want more", i, len(r.Segs))
			}
			q := r.Segs[k]
			k++
			if q.Kind != s.Kind {
				return fmt.Sprintf("subpath %d segment %d is %c, want %c", i, j, q.Kind, s.Kind)
			}
			x, y := mapSeg(T, q), mapSeg(M, s)
			np := map[byte]int{'L': 1, 'Q': 2, 'C': 3}[s.Kind]
			for c := 0; c < np; c++ {
				if !near(x.P[c], y.P[c], tol) {
					return fmt.Sprintf("subpath %d segment %d (%c) point %d is %v, want %v", i, j, s.Kind, c, x.P[c], y.P[c])
				}
			}
			cur = x.End()
		}
		if k != len(r.Segs) {
			return fmt.Sprintf("subpath %d has %d surplus segments", i, len(r.Segs)-k)
		}
	}
	return ""
}

func evalSeg(a pt, s model.Seg, t float64) pt {
	u := 1 - t
	switch s.Kind {
	case 'L':
		return pt{X: u*a.X + t*s.P[0].X, Y: u*a.Y + t*s.P[0].Y}
	case 'Q':
		return pt{X: u*u*a.X + 2*u*t*s.P[0].X + t*t*s.P[1].X, Y: u*u*a.Y + 2*u*t*s.P[0].Y + t*t*s.P[1].Y}
	default:
		return pt{X: u*u*u*a.X + 3*u*u*t*s.P[0].X + 3*u*t*t*s.P[1].X + t*t*t*s.P[2].X,
			Y: u*u*u*a.Y + 3*u*u*t*s.P[0].Y + 3*u*t*t*s.P[1].Y + t*t*t*s.P[2].Y}
	}
}

func invert(m model.Mat) (model.Mat, bool) {
	det := m.A*m.D - m.B*m.C
	if math.Abs(det) < 1e-12 {
		return m, false
	}
	r := model.Mat{A: m.D / det, B: -m.B / det, C: -m.C / det, D: m.A / det}
	r.E = -(r.A*m.E + r.C*m.F)
	r.F = -(r.B*m.E + r.D*m.F)
	return r, true
}

// cmpArc consumes the real segments that make up one model arc.
func cmpArc(cur pt, segs []model.Seg, T model.Mat, s model.Seg, M model.Mat) (int, string) {
	e := s.Arc
	inv, ok := invert(M)
	if !ok {
		return 0, "singular transform (harness)"
	}
	// tolerances in the unit circle frame
	rmin := math.Min(e.Rx, e.Ry)
	loc := inv.Norm() * T.Norm() * quantum * 1.5 / rmin
	rtol := loc*1.5 + 5e-5
	atol := loc*2 + 0.02
	to := func(p pt) pt { return e.Local(inv.At(p)) }
	l := to(cur)
	last := math.Atan2(l.Y, l.X)
	acc := 0.0
	dir := 1.0
	if e.Delta < 0 {
		dir = -1
	}
	endTol := quantum*T.Norm()*1.001 + 1e-6*(1+T.Norm())
	end := M.At(s.P[0])
	for k := 0; k < len(segs); k++ {
		q := mapSeg(T, segs[k])
		n := 8
		for i := 1; i <= n; i++ {
			p := to(evalSeg(cur, q, float64(i)/float64(n)))
			r := math.Hypot(p.X, p.Y)
			if math.Abs(r-1) > rtol {
				return 0, fmt.Sprintf("curve leaves the ellipse: relative radius %.4f at segment %d (centre %v radii %.3f,%.3f)", r, k, e.C, e.Rx, e.Ry)
			}
			th := math.Atan2(p.Y, p.X)
			d := th - last
			for d > math.Pi {
				d -= 2 * math.Pi
			}
			for d < -math.Pi {
				d += 2 * math.Pi
			}
			if d*dir < -atol {
				return 0, "curve runs against the sweep direction"
			}
			acc += d
			last = th
		}
		cur = q.End()
		if math.Abs(acc-e.Delta) <= atol && near(cur, end, endTol) {
			return k + 1, ""
		}
		if math.Abs(acc) > math.Abs(e.Delta)+atol {
			return 0, fmt.Sprintf("curve sweeps %.3f rad, want %.3f", acc, e.Delta)
		}
	}
	return 0, fmt.Sprintf("curve sweeps only %.3f rad of %.3f or does not end at %v (ends at %v)", acc, e.Delta, end, cur)
}

func flatten(start pt, segs []model.Seg, closed bool, m model.Mat) []pt {
	cur := m.At(start)
	out := []pt{cur}
	for _, s := range segs {
		switch s.Kind {
		case 'A':
			n := int(math.Abs(s.Arc.Delta)/(math.Pi/32)) + 1
			for i := 1; i <= n; i++ {
				out = append(out, m.At(s.Arc.PointAt(s.Arc.Th1+s.Arc.Delta*float64(i)/float64(n))))
			}
			cur = m.At(s.P[0])
		case 'L':
			q := mapSeg(m, s)
			out = append(out, q.P[0])
			cur = q.P[0]
		default:
			q := mapSeg(m, s)
			for i := 1; i <= 4; i++ {
				out = append(out, evalSeg(cur, q, float64(i)/4))
			}
			cur = q.End()
		}
	}
	if closed && len(out) > 1 && out[0] != out[len(out)-1] {
		out = append(out, out[0])
	}
	return out
}

func area(p []pt) float64 {
	a := 0.0
	for i := 0; i+1 < len(p); i++ {
		a += p[i].X*p[i+1].Y - p[i+1].X*p[i].Y
	}
	return a / 2
}

func perimeter(p []pt) float64 {
	a := 0.0
	for i := 0; i+1 < len(p); i++ {
		a += math.Hypot(p[i].X-p[i+1].X, p[i].Y-p[i+1].Y)
	}
	return a
}

func distTo(p pt, poly []pt) float64 {
	best := math.Inf(1)
	for i := 0; i+1 < len(poly); i++ {
		a, b := poly[i], poly[i+1]
		dx, dy := b.X-a.X, b.Y-a.Y
		l := dx*dx + dy*dy
		t := 0.0
		if l > 0 {
			t = ((p.X-a.X)*dx + (p.Y-a.Y)*dy) / l
			t = math.Max(0, math.Min(1, t))
		}
		d := math.Hypot(p.X-a.X-t*dx, p.Y-a.Y-t*dy)
		if d < best {
			best = d
		}
	}
	return best
}

// onOutline checks the points of the real outline against the exact lines and ellipse arcs of the model. The distance to
// an arc is underestimated for ellipses.
func onOutline(r rsub, T model.Mat, m model.Sub, M model.Mat) string {
	inv, ok := invert(M)
	if !ok {
		return ""
	}
	back := inv.Mul(T) // from the real path's coordinates to the model's
	tol := 2.5 * quantum * math.Max(1, back.Norm())
	dist := func(p pt) float64 {
		best := math.Inf(1)
		at := m.Start
		for _, s := range m.Segs {
			d := 0.0
			if s.Arc == nil {
				d = distTo(p, []pt{at, s.P[0]})
			} else {
				l := s.Arc.Local(p)
				d = math.Abs(math.Hypot(l.X, l.Y)-1) * math.Min(s.Arc.Rx, s.Arc.Ry)
			}
			best = math.Min(best, d)
			at = s.P[0]
		}
		return math.Min(best, distTo(p, []pt{at, m.Start}))
	}
	at := back.At(r.Start)
	for _, s := range r.Segs {
		q := mapSeg(back, s)
		for i := 1; i <= 8; i++ {
			p := evalSeg(at, q, float64(i)/8)
			if d := dist(p); d > tol+1e-5*(math.Abs(p.X)+math.Abs(p.Y)) {
				return fmt.Sprintf("outline point %.3f,%.3f is %.3f off the shape", p.X, p.Y, d)
			}
		}
		at = q.End()
	}
	return ""
}

func cmpOutline(rs []rsub, T model.Mat, g model.Geom, M model.Mat) string {
	if len(rs) != 1 {
		return fmt.Sprintf("outline has %d subpaths, want 1", len(rs))
	}
	m := g.Subs[0]
	if rs[0].Closed != m.Closed {
		return fmt.Sprintf("outline closed=%v, want %v", rs[0].Closed, m.Closed)
	}
	rmax := 0.0
	for _, s := range m.Segs {
		if s.Arc != nil {
			rmax = math.Max(rmax, math.Max(s.Arc.Rx, s.Arc.Ry))
		}
	}
	n := T.Norm()
	tol := (2*quantum+0.006*rmax)*math.Max(n, M.Norm()) + 1e-6*(1+n)
	a := flatten(rs[0].Start, rs[0].Segs, true, T)
	b := flatten(m.Start, m.Segs, true, M)
	if e := onOutline(rs[0], T, m, M); e != "" {
		return e
	}
	for _, p := range a {
		if d := distTo(p, b); d > tol {
			return fmt.Sprintf("outline point %.3f,%.3f is %.3f off the shape", p.X, p.Y, d)
		}
	}
	for _, p := range b {
		if d := distTo(p, a); d > tol {
			return fmt.Sprintf("shape point %.3f,%.3f is missed by the outline by %.3f", p.X, p.Y, d)
		}
	}
	if x, y := math.Abs(area(a)), math.Abs(area(b)); math.Abs(x-y) > tol*perimeter(b)+tol*tol {
		return fmt.Sprintf("outline encloses area %.3f, want %.3f", x, y)
	}
	return ""
}

// ---- style ----

var joinNames = map[svg.JoinMode]string{svg.Arc: "arc", svg.Round: "round", svg.Bevel: "bevel", svg.Miter: "miter", svg.MiterClip: "miter-clip", svg.ArcClip: "arc-clip"}
var capNames = map[svg.CapMode]string{svg.NilCap: "", svg.ButtCap: "butt", svg.SquareCap: "square", svg.RoundCap: "round", svg.CubicCap: "cubic", svg.QuadraticCap: "quadratic"}
var gapNames = map[svg.GapMode]string{svg.NilGap: "", svg.FlatGap: "flat", svg.RoundGap: "round", svg.CubicGap: "cubic", svg.QuadraticGap: "quadratic"}

func feq(a, b float64) bool {
	return math.Abs(a-b) <= 1e-6*(1+math.Abs(a)+math.Abs(b))
}

func cmpStops(a []svg.GradStop, b []model.Stop) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d stops, want %d", len(a), len(b))
	}
	for i := range a {
		if !feq(a[i].Offset, b[i].Off) {
			return fmt.Sprintf("stop %d offset %v, want %v", i, a[i].Offset, b[i].Off)
		}
		if !feq(a[i].Opacity, b[i].Op) {
			return fmt.Sprintf("stop %d opacity %v, want %v", i, a[i].Opacity, b[i].Op)
		}
		if b[i].NoColor {
			continue
		}
		if a[i].StopColor == nil {
			return fmt.Sprintf("stop %d has no colour", i)
		}
		if e := cmpColor(a[i].StopColor, b[i].C); e != "" {
			return fmt.Sprintf("stop %d %s", i, e)
		}
	}
	return ""
}

func cmpColor(c color.Color, w model.RGB) string {
	r, g, b, a := c.RGBA()
	if a != 0xffff || uint8(r>>8) != w.R || uint8(g>>8) != w.G || uint8(b>>8) != w.B {
		return fmt.Sprintf("colour is %d,%d,%d alpha %d, want %d,%d,%d", r>>8, g>>8, b>>8, a>>8, w.R, w.G, w.B)
	}
	return ""
}

func cmpPaint(what string, p svg.Pattern, w model.Paint) string {
	if w.None {
		if p != nil {
			return fmt.Sprintf("%s is %v, want none", what, p)
		}
		return ""
	}
	if w.G != nil {
		g, ok := p.(svg.Gradient)
		if !ok {
			return fmt.Sprintf("%s is %v, want a gradient", what, p)
		}
		if e := cmpGrad(g, w.G); e != "" {
			return what + " gradient: " + e
		}
		return ""
	}
	c, ok := p.(svg.PlainColor)
	if !ok {
		return fmt.Sprintf("%s is %v, want colour %v", what, p, w.C)
	}
	if e := cmpColor(c, w.C); e != "" {
		return what + " " + e
	}
	return ""
}

func cmpGrad(g svg.Gradient, w *model.Grad) string {
	var v []float64
	switch d := g.Direction.(type) {
	case svg.Linear:
		if w.Radial {
			return "is linear, want radial"
		}
		v = d[:]
	case svg.Radial:
		if !w.Radial {
			return "is radial, want linear"
		}
		v = d[:]
	default:
		return fmt.Sprintf("has no direction (%v)", g.Direction)
	}
	for i := range v {
		if !feq(v[i], w.V[i]) {
			return fmt.Sprintf("vector is %v, want %v", v, w.V[:len(v)])
		}
	}
	sp := map[svg.SpreadMethod]string{svg.PadSpread: "pad", svg.ReflectSpread: "reflect", svg.RepeatSpread: "repeat"}[g.Spread]
	if sp != w.Spread {
		return fmt.Sprintf("spread is %s, want %s", sp, w.Spread)
	}
	if (g.Units == svg.UserSpaceOnUse) != w.User {
		return fmt.Sprintf("userSpaceOnUse is %v, want %v", g.Units == svg.UserSpaceOnUse, w.User)
	}
	if e := cmpMat(mat(g.Matrix), w.M, true); e != "" {
		return "transform " + e
	}
	return cmpStops(g.Stops, w.Stops)
}

func cmpMat(a, b model.Mat, trans bool) string {
	if !feq(a.A, b.A) || !feq(a.B, b.B) || !feq(a.C, b.C) || !feq(a.D, b.D) || (trans && (!feq(a.E, b.E) || !feq(a.F, b.F))) {
		return fmt.Sprintf("matrix is %.4f, want %.4f", a, b)
	}
	return ""
}

func cmpStyle(s svg.PathStyle, w model.Style) string {
	if e := cmpPaint("fill", s.FillerColor, w.Fill); e != "" {
		return e
	}
	if e := cmpPaint("stroke", s.LinerColor, w.Stroke); e != "" {
		return e
	}
	if !feq(s.FillOpacity, w.FillOp) {
		return fmt.Sprintf("fill opacity is %v, want %v", s.FillOpacity, w.FillOp)
	}
	if !feq(s.LineOpacity, w.StrokeOp) {
		return fmt.Sprintf("stroke opacity is %v, want %v", s.LineOpacity, w.StrokeOp)
	}
	if !feq(s.LineWidth, w.Width) {
		return fmt.Sprintf("line width is %v, want %v", s.LineWidth, w.Width)
	}
	if s.UseNonZeroWinding != w.NonZero {
		return fmt.Sprintf("non-zero winding is %v, want %v", s.UseNonZeroWinding, w.NonZero)
	}
	if math.Abs(float64(s.Join.MiterLimit)/64-w.Miter) > quantum*1.001 {
		return fmt.Sprintf("miter limit is %v, want %v", float64(s.Join.MiterLimit)/64, w.Miter)
	}
	if joinNames[s.Join.LineJoin] != w.Join {
		return fmt.Sprintf("line join is %s, want %s", joinNames[s.Join.LineJoin], w.Join)
	}
	if capNames[s.Join.TrailLineCap] != w.Cap {
		return fmt.Sprintf("line cap is %s, want %s", capNames[s.Join.TrailLineCap], w.Cap)
	}
	if capNames[s.Join.LeadLineCap] != w.Lead {
		return fmt.Sprintf("lead line cap is %s, want %s", capNames[s.Join.LeadLineCap], w.Lead)
	}
	if gapNames[s.Join.LineGap] != w.Gap {
		return fmt.Sprintf("line gap is %s, want %s", gapNames[s.Join.LineGap], w.Gap)
	}
	if len(s.Dash.Dash) != len(w.Dash) {
		return fmt.Sprintf("dashes are %v, want %v", s.Dash.Dash, w.Dash)
	}
	for i := range w.Dash {
		if !feq(s.Dash.Dash[i], w.Dash[i]) {
			return fmt.Sprintf("dashes are %v, want %v", s.Dash.Dash, w.Dash)
		}
	}
	if !feq(s.Dash.DashOffset, w.DashOff) {
		return fmt.Sprintf("dash offset is %v, want %v", s.Dash.DashOffset, w.DashOff)
	}
	if len(s.Masks) != len(w.Masks) {
		return fmt.Sprintf("masks are %q, want %q", s.Masks, w.Masks)
	}
	for i := range w.Masks {
		if s.Masks[i] != w.Masks[i] {
			return fmt.Sprintf("masks are %q, want %q", s.Masks, w.Masks)
		}
	}
	if e := cmpMat(mat(s.Transform), w.M, false); e != "" {
		return "transform " + e
	}
	return ""
}

func cmpShapes(what string, ps []svg.SvgPath, ws []model.Shape) string {
	for i := range ps {
		if i >= len(ws) {
			break
		}
		if e := cmpGeom(ps[i].Path, mat(ps[i].Style.Transform), ws[i].G, ws[i].S.M); e != "" {
			return fmt.Sprintf("%s %d: %s (got %s under %v)", what, i, e, ps[i].Path, ps[i].Style.Transform)
		}
		if e := cmpStyle(ps[i].Style, ws[i].S); e != "" {
			return fmt.Sprintf("%s %d: %s", what, i, e)
		}
	}
	if len(ps) != len(ws) {
		return fmt.Sprintf("got %d %ss, want %d", len(ps), what, len(ws))
	}
	return ""
}

func cmpStrings(what string, a, b []string) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%s are %q, want %q", what, a, b)
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("%s are %q, want %q", what, a, b)
		}
	}
	return ""
}

// cmpDoc compares everything observable of a parse result.
func cmpDoc(s *svg.Svg, d *model.Doc) string {
	if s == nil {
		return "nil document"
	}
	if e := cmpShapes("path", s.SvgPaths, d.Shapes); e != "" {
		return e
	}
	if e := cmpStrings("titles", s.Titles, d.Titles); e != "" {
		return e
	}
	if e := cmpStrings("descriptions", s.Descriptions, d.Descs); e != "" {
		return e
	}
	if !feq(s.ViewBox.X, d.VB.X) || !feq(s.ViewBox.Y, d.VB.Y) || !feq(s.ViewBox.W, d.VB.W) || !feq(s.ViewBox.H, d.VB.H) {
		return fmt.Sprintf("viewBox is %v, want %v", s.ViewBox, d.VB)
	}
	if s.Width != d.Width || s.Height != d.Height {
		return fmt.Sprintf("width/height are %q %q, want %q %q", s.Width, s.Height, d.Width, d.Height)
	}
	if e := cmpMat(mat(s.Transform), model.I, true); e != "" {
		return "document transform " + e
	}
	if len(s.SvgMasks) != len(d.Masks) {
		return fmt.Sprintf("got %d masks, want %d", len(s.SvgMasks), len(d.Masks))
	}
	for id, w := range d.Masks {
		m := s.SvgMasks[id]
		if m == nil {
			return fmt.Sprintf("mask %q is missing", id)
		}
		if m.ID != id {
			return fmt.Sprintf("mask %q has id %q", id, m.ID)
		}
		if !feq(m.X, w.X) || !feq(m.Y, w.Y) || !feq(m.W, w.W) || !feq(m.H, w.H) {
			return fmt.Sprintf("mask %q box is %v,%v,%v,%v, want %v,%v,%v,%v", id, m.X, m.Y, m.W, m.H, w.X, w.Y, w.W, w.H)
		}
		if e := cmpShapes("mask "+id+" path", m.SvgPaths, w.Shapes); e != "" {
			return e
		}
	}
	return ""
}

// ---- helpers used by all drivers ----

type parsed struct {
	s   *svg.Svg
	err error
}

func (x *X) parse(text string, mode svg.ErrorMode) (p parsed) {
	x.Call("Parse", func() { p.s, p.err = svg.Parse(strings.NewReader(text), mode) })
	if p.err == nil && p.s == nil {
		x.Failf("Parse returned neither a document nor an error")
	}
	return
}

// conform parses the document and compares it with the model's meaning.
func (x *X) conform(root *model.Node, mode svg.ErrorMode) *svg.Svg {
	return x.conformText(root, root.XML(), mode)
}

// conformText compares the document text with the model's meaning of root.
func (x *X) conformText(root *model.Node, text string, mode svg.ErrorMode) *svg.Svg {
	x.Desc(func() string { return text })
	model.Visit = x.StateH
	d := model.Interpret(root, mode == svg.StrictErrorMode)
	model.Visit = nil
	p := x.parse(text, mode)
	if d.Err != "" {
		if p.err == nil {
			x.Failf("parsing succeeded, want an error (%s)", d.Err)
		}
		x.Outcome("error " + d.Err)
		return nil
	}
	if p.err != nil {
		x.Failf("parsing failed: %v", p.err)
	}
	if e := cmpDoc(p.s, d); e != "" {
		x.Failf("%s", e)
	}
	x.OutcomeH(docHash(p.s))
	return p.s
}

func docHash(s *svg.Svg) uint64 {
	h := uint64(len(s.SvgPaths))
	mix := func(v uint64) { h ^= v; h *= 1099511628211; h ^= h >> 30 }
	for i := range s.SvgPaths {
		p := &s.SvgPaths[i]
		for _, op := range p.Path {
			switch o := op.(type) {
			case svg.OpMoveTo:
				mix(uint64(o.X)<<32 ^ uint64(uint32(o.Y)) ^ 1<<62)
			case svg.OpLineTo:
				mix(uint64(o.X)<<32 ^ uint64(uint32(o.Y)))
			case svg.OpQuadTo:
				mix(uint64(o[1].X)<<32 ^ uint64(uint32(o[0].Y)) ^ 2)
			case svg.OpCubicTo:
				mix(uint64(o[2].X)<<32 ^ uint64(uint32(o[0].Y)) ^ 3)
			default:
				mix(77)
			}
		}
		mix(math.Float64bits(p.Style.Transform.A + 3*p.Style.Transform.E + 7*p.Style.Transform.F))
		mix(math.Float64bits(p.Style.FillOpacity + 5*p.Style.LineWidth + 11*p.Style.LineOpacity))
		if c, ok := p.Style.FillerColor.(svg.PlainColor); ok {
			mix(uint64(c.R)<<16 | uint64(c.G)<<8 | uint64(c.B))
		}
		mix(uint64(len(p.Style.Masks)))
	}
	for _, t := range s.Titles {
		mix(hashStr(t))
	}
	mix(uint64(len(s.SvgMasks)))
	return h
}

func svgRoot(kids ...*model.Node) *model.Node {
	return model.E("svg", "viewBox", "0 0 100 60").Add(kids...)
}

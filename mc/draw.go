package main

// Documents for the renderer checks, and the meaning of drawing one: the list of paints it has to give,
// computed from the parsed document without using any of the renderer code.

import (
	"fmt"
	"image/color"
	"math"
	"strings"

	"mc/model"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
)

type rect struct{ X, Y, W, H float64 }

// drawing is a document with the options it is drawn with.
type drawing struct {
	text    string
	s       *svg.Svg
	opts    []renderer.RenderOption
	target  model.Mat
	opacity float64
	optText string
}

// targetMap maps the viewBox onto the rectangle.
func targetMap(vb svg.Bounds, r rect) model.Mat {
	sx, sy := 1.0, 1.0
	if vb.W != 0 {
		sx = r.W / vb.W
	}
	if vb.H != 0 {
		sy = r.H / vb.H
	}
	return model.Mat{A: sx, D: sy, E: r.X - sx*vb.X, F: r.Y - sy*vb.Y}
}

// meanScale is the mean length of the transformed unit axes.
func meanScale(m model.Mat) float64 { return (math.Hypot(m.A, m.B) + math.Hypot(m.C, m.D)) / 2 }

var drawGeoms = []string{
	`<path d="M1 1L9 2 5 7z"`,
	`<path d="M1 1L9 2 5 7"`,
	`<path d="M1 1h6v6h-6zM3 3h2v2h-2z"`,
	`<path d="M1 6L4 1M6 1L9 6 8 1zM2 7h5"`,
	`<path d="M1 1Q5 9 9 1z"`,
	`<path d="M1 1C2 9 8-2 9 6"`,
	`<rect x="2" y="1" width="7" height="5" rx="2"`,
	`<circle cx="5" cy="4" r="3"`,
	`<path d="M1 4A4 3 0 0 1 9 4L5 8zM2 2"`,
	`<line x1="1" y1="1" x2="9" y2="6"`,
	`<path d="M2 2zL4 4"`,
}

type drawAttr struct {
	name string
	vals []string // the first one is the default
}

var drawAttrs = []drawAttr{
	{"fill", []string{"#456789", "none", "url(#L)", "url(#B)", "url(#R)", "url(#U)"}},
	{"stroke", []string{"#fedcba", "none", "url(#L)", "url(#B)", "url(#U)"}},
	{"fill-rule", []string{"nonzero", "evenodd"}},
	{"stroke-width", []string{"2", "0.5", "10%", "0"}},
	{"stroke-linecap", []string{"butt", "round", "square", "cubic", "quadratic"}},
	{"stroke-leadlinecap", []string{"", "round", "butt"}},
	{"stroke-linejoin", []string{"miter", "round", "bevel", "arc", "miter-clip", "arc-clip"}},
	{"stroke-miterlimit", []string{"4", "1", "10"}},
	{"stroke-linegap", []string{"flat", "round", "cubic", "quadratic"}},
	{"stroke-dasharray", []string{"", "3 1", "2", "1 2 3", "0 2"}},
	{"stroke-dashoffset", []string{"0", "1.5", "-1"}},
	{"fill-opacity", []string{"1", "0.5", "0"}},
	{"stroke-opacity", []string{"1", "0.5", "0"}},
	{"opacity", []string{"1", "0.25"}},
	{"transform", []string{"", "translate(3 1)", "scale(2 .5)", "rotate(30)", "matrix(1 .2 -.3 1 2 0)", "scale(-1 1) translate(-9)"}},
}

const drawDefs = `<defs><linearGradient id="L" gradientUnits="userSpaceOnUse" x1="1" y1="1" x2="8" y2="5"><stop offset="0.1" stop-color="#ff0000"/><stop offset="0.6" stop-color="#00ff00" stop-opacity="0.5"/><stop offset="1" stop-color="#0000ff"/></linearGradient>` +
	`<linearGradient id="B" x2="1" y2="1" gradientTransform="rotate(10)" spreadMethod="reflect"><stop offset="0" stop-color="#00ffff"/><stop offset="0.5" stop-color="#ff00ff"/></linearGradient>` +
	`<radialGradient id="R" gradientUnits="userSpaceOnUse" cx="5" cy="4" r="4" fr="1.5" fx="6"><stop offset="0" stop-color="#ffffff"/><stop offset="1" stop-color="#000080"/></radialGradient>` +
	`<linearGradient id="U" gradientUnits="userSpaceOnUse" x1="0" y1="6" x2="9" y2="6"><stop offset="0.8" stop-color="#ff0000" stop-opacity="0.75"/><stop offset="0.2" stop-color="#0000ff"/><stop offset="0.5" stop-color="#00ff00"/></linearGradient></defs>` +
	`<mask id="m1"><circle cx="5" cy="4" r="3" fill="white"/></mask><mask id="m2"><rect width="5" height="9" fill="black" opacity="0.5"/><rect x="3" y="3" width="9" height="2" fill="none" stroke="red" transform="rotate(5)"/></mask><mask id="m3"><rect width="9" height="5" fill="white" mask="url(#m1)"/></mask>`

var drawTargets = []rect{{}, {0, 0, 24, 16}, {5, 3, 6, 20}, {2, 2, 12, 8}, {-4, 1, 30, 9.5}}

// drawingText chooses a document of n shapes; every difference from filled and stroked triangles is a
// deviation.
func (x *X) drawingText(n int, masks bool) string {
	vb := x.DevPick("0 0 12 8", "-3 2 12 8", "1 1 6 16")
	t := `<svg viewBox="` + vb + `">` + drawDefs
	for i := 0; i < n; i++ {
		grp := ""
		if masks {
			grp = x.DevPick("", `<g mask="url(#m1)">`, `<g mask="url(#m2)" transform="translate(1 .5)">`, `<g mask="url(#m1)"><g mask="url(#m2)">`)
		}
		t += grp + drawGeoms[x.Dev(len(drawGeoms))]
		for _, a := range drawAttrs {
			if k := x.Dev(len(a.vals)); k > 0 || (a.vals[0] != "" && (a.name == "fill" || a.name == "stroke" || a.name == "stroke-linejoin")) {
				t += " " + a.name + `="` + a.vals[k] + `"`
			}
		}
		if masks {
			if m := x.DevPick("", "url(#m1)", "url(#m2)", "url(#m3)", "url(#none)"); m != "" {
				t += ` mask="` + m + `"`
			}
		}
		t += "/>" + strings.Repeat("</g>", strings.Count(grp, "<g"))
	}
	return t + "</svg>"
}

func (x *X) options(s *svg.Svg, d *drawing) {
	d.target, d.opacity = model.I, 1
	if k := x.Dev(len(drawTargets)); k > 0 {
		r := drawTargets[k]
		d.opts = append(d.opts, renderer.Target(r.X, r.Y, r.W, r.H))
		d.target = targetMap(s.ViewBox, r)
		d.optText += fmt.Sprint("target ", r)
	}
	if k := x.Dev(3); k > 0 {
		o := []float64{1, 0.5, 0}[k]
		d.opts = append(d.opts, renderer.Opacity(o))
		d.opacity = o
		d.optText += fmt.Sprint(" opacity ", o)
	}
}

func (x *X) drawing(n int, masks bool) *drawing {
	d := &drawing{}
	d.text = x.drawingText(n, masks)
	x.Desc(func() string { return d.optText + " " + d.text })
	p := x.parse(d.text, svg.StrictErrorMode)
	if p.err != nil {
		x.Failf("parsing failed: %v", p.err)
	}
	d.s = p.s
	x.options(d.s, d)
	x.State(d.text, d.optText)
	return d
}

// paint is one fill or stroke a drawing has to give.
type paint struct {
	stroke  bool
	subs    []rsub // in device space
	m       model.Mat
	nonZero bool
	rgb     model.RGB // colour, or the first stop of the gradient
	grad    *svg.Gradient
	opacity float64
	cap     svg.CapMode
	lead    svg.CapMode
	join    svg.JoinMode
	gap     svg.GapMode
	miter   float64
	width   float64
	dash    []float64
	offset  float64
	masks   []string
}

func asRGB(c color.Color) model.RGB {
	n := color.NRGBAModel.Convert(c).(color.NRGBA)
	return model.RGB{R: n.R, G: n.G, B: n.B}
}

// inkless subpaths draw nothing
func inked(in []rsub) (out []rsub) {
	for _, s := range in {
		if len(s.Segs) > 0 || s.Closed {
			out = append(out, s)
		}
	}
	return
}

func mapSubs(in []rsub, m model.Mat) (out []rsub) {
	for _, s := range in {
		c := rsub{Start: m.At(s.Start), Closed: s.Closed, Moved: s.Moved}
		for _, g := range s.Segs {
			c.Segs = append(c.Segs, mapSeg(m, g))
		}
		out = append(out, c)
	}
	return
}

// refDashes is the pattern as drawn: doubled when odd, scaled, none when it is too fine or too long to be drawn.
func refDashes(d svg.DashOptions, scale float64) (out []float64, off float64) {
	sum := 0.0
	for _, v := range d.Dash {
		if v < 0 {
			return nil, 0
		}
		sum += v
	}
	if sum*scale < 1.0/16 || sum*scale > 1<<20 {
		return nil, 0
	}
	for n := 0; n < 1+len(d.Dash)%2; n++ {
		for _, v := range d.Dash {
			out = append(out, v*scale)
		}
	}
	period := 0.0
	for _, v := range out {
		period += v
	}
	off = math.Mod(d.DashOffset*scale, period)
	if off < 0 {
		off += period
	}
	return
}

func refPaints(d *drawing) (out []paint, err string) {
	return refPathPaints(d.s.SvgPaths, d.target, d.opacity)
}

func refPathPaints(paths []svg.SvgPath, target model.Mat, opacity float64) (out []paint, err string) {
	for i := range paths {
		p := &paths[i]
		st := &p.Style
		m := target.Mul(mat(st.Transform))
		subs, e := realSubs(p.Path)
		if e != "" {
			return nil, e
		}
		subs = mapSubs(inked(subs), m)
		scale := meanScale(m)
		setPaint := func(pt *paint, c svg.Pattern) {
			switch c := c.(type) {
			case svg.PlainColor:
				pt.rgb = asRGB(c)
			case svg.Gradient:
				g := c
				pt.grad = &g
				if len(g.Stops) > 0 {
					pt.rgb = asRGB(g.Stops[0].StopColor)
				}
			}
		}
		if st.FillerColor != nil {
			q := paint{subs: subs, m: m, nonZero: st.UseNonZeroWinding, opacity: st.FillOpacity * opacity, masks: st.Masks}
			setPaint(&q, st.FillerColor)
			out = append(out, q)
		}
		if st.LinerColor != nil {
			q := paint{stroke: true, subs: subs, m: m, nonZero: true, opacity: st.LineOpacity * opacity, masks: st.Masks,
				cap: st.Join.TrailLineCap, lead: st.Join.LeadLineCap, join: st.Join.LineJoin, gap: st.Join.LineGap, miter: float64(st.Join.MiterLimit) / 64,
				width: st.LineWidth * scale}
			q.dash, q.offset = refDashes(st.Dash, scale)
			setPaint(&q, st.LinerColor)
			out = append(out, q)
		}
	}
	return
}

// cmpSubs compares subpaths in device space.
func cmpSubs(got, want []rsub, tol float64) string {
	got = inked(got)
	if len(got) != len(want) {
		return fmt.Sprintf("%d subpaths instead of %d", len(got), len(want))
	}
	for i := range want {
		g, w := got[i], want[i]
		if !near(g.Start, w.Start, tol) {
			return fmt.Sprintf("subpath %d starts at %v instead of %v", i, g.Start, w.Start)
		}
		if g.Closed != w.Closed {
			return fmt.Sprintf("subpath %d closed %v instead of %v", i, g.Closed, w.Closed)
		}
		if len(g.Segs) != len(w.Segs) {
			return fmt.Sprintf("subpath %d has %d segments instead of %d", i, len(g.Segs), len(w.Segs))
		}
		for j := range w.Segs {
			a, b := g.Segs[j], w.Segs[j]
			if a.Kind != b.Kind {
				return fmt.Sprintf("segment %d of subpath %d is %c instead of %c", j, i, a.Kind, b.Kind)
			}
			for k := 0; k < map[byte]int{'L': 1, 'Q': 2, 'C': 3}[b.Kind]; k++ {
				if !near(a.P[k], b.P[k], tol) {
					return fmt.Sprintf("segment %d of subpath %d has point %v instead of %v", j, i, a.P[k], b.P[k])
				}
			}
		}
	}
	return ""
}

func nearF(a, b, tol float64) bool { return math.Abs(a-b) <= tol*(1+math.Abs(b)) }

// cmpDashes compares dash patterns; a zero dash may be a tiny one.
func cmpDashes(got []float64, gotOff float64, want []float64, wantOff float64, tol float64) string {
	if len(got)%2 == 1 {
		got = append(append([]float64{}, got...), got...)
	}
	if len(got) != len(want) {
		return fmt.Sprintf("dashes %v instead of %v", got, want)
	}
	period := 0.0
	for i := range want {
		if math.Abs(got[i]-want[i]) > tol+0.003 {
			return fmt.Sprintf("dashes %v instead of %v", got, want)
		}
		period += want[i]
	}
	if len(want) == 0 {
		return ""
	}
	d := math.Mod(gotOff-wantOff, period)
	if d < 0 {
		d += period
	}
	if d > tol+0.01 && period-d > tol+0.01 {
		return fmt.Sprintf("dash offset %v instead of %v (pattern length %v)", gotOff, wantOff, period)
	}
	return ""
}

// cmpPlain compares a painted colour with the wanted one and its opacity.
func cmpPlain(c color.Color, rgb model.RGB, opacity float64) string {
	n := nrgba(c)
	a := opacity * 255
	if math.Abs(float64(n.A)-a) > 1.01 {
		return fmt.Sprintf("alpha %d instead of %.1f", n.A, a)
	}
	if n.A == 0 {
		return ""
	}
	if n.R != rgb.R || n.G != rgb.G || n.B != rgb.B {
		// a premultiplied colour can not be more exact than its alpha
		tol := 1 + 255/int(n.A)
		if _, ok := c.(color.NRGBA); ok {
			tol = 1
		}
		for _, p := range [][2]uint8{{n.R, rgb.R}, {n.G, rgb.G}, {n.B, rgb.B}} {
			if d := int(p[0]) - int(p[1]); d > tol || d < -tol {
				return fmt.Sprintf("colour %v instead of %v", n, rgb)
			}
		}
	}
	return ""
}

func nrgba(c color.Color) color.NRGBA {
	if n, ok := c.(color.NRGBA); ok {
		return n
	}
	return color.NRGBAModel.Convert(c).(color.NRGBA)
}

// runGeometry draws one path of n commands over a small grid of points, most of them degenerate in some way.
func runGeometry(n, nt int, check func(x *X, d *drawing)) func(x *X) {
	return func(x *X) {
		m := n
		if x.Thorough {
			m = nt
		}
		xs, ys := []int{2, 8}, []int{1, 6}
		if m == 1 {
			xs, ys = []int{2, 5, 8}, []int{1, 3, 6}
		}
		pnt := func() string { return fmt.Sprintf(" %d %d", xs[x.Choose(len(xs))], ys[x.Choose(len(ys))]) }
		p := "M" + fmt.Sprintf(" %d %d", xs[0], ys[0])
		for i := 0; i < m; i++ {
			switch x.Choose(5) {
			case 0:
				p += "L" + pnt()
			case 1:
				p += "Q" + pnt() + pnt()
			case 2:
				p += "C" + pnt() + pnt() + pnt()
			case 3:
				p += "z"
			case 4:
				p += "M" + pnt()
			}
		}
		p += x.Pick("", "z")
		d := &drawing{text: `<svg viewBox="0 0 12 8"><path d="` + p + `"` + x.Pick(` fill="#456789"`, ` fill="none" stroke="#fedcba"`, ` stroke="#fedcba" stroke-dasharray="3 1" stroke-width="1"`) + x.DevPick("", ` transform="scale(2)"`, ` transform="rotate(90) translate(0 -12)"`) + `/></svg>`}
		x.Desc(func() string { return d.optText + " " + d.text })
		q := x.parse(d.text, svg.StrictErrorMode)
		if q.err != nil {
			x.Failf("parsing failed: %v", q.err)
		}
		d.s = q.s
		x.options(d.s, d)
		x.State(d.text, d.optText)
		check(x, d)
	}
}

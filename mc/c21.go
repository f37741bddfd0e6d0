package main

import (
	"fmt"
	"image"
	"image/color"
	"math"

	"mc/model"

	svg "github.com/lafriks/go-svg"
	svggg "github.com/lafriks/go-svg/renderer/gg"

	"github.com/fogleman/gg"
)

const ggW, ggH = 40, 24

func ggColour(rgb model.RGB, opacity float64) color.Color {
	return color.NRGBA{rgb.R, rgb.G, rgb.B, uint8(opacity * 255)}
}

// ggGradient is the gradient where gg can draw it: in user space equal to device space.
func ggGradient(w paint) (gg.Gradient, bool) {
	g := w.grad
	if g.Units != svg.UserSpaceOnUse || mat(g.Matrix) != model.I || w.m != model.I || g.Spread != svg.PadSpread {
		return nil, false
	}
	var out gg.Gradient
	switch d := g.Direction.(type) {
	case svg.Linear:
		out = gg.NewLinearGradient(d[0], d[1], d[2], d[3])
	case svg.Radial:
		out = gg.NewRadialGradient(d[2], d[3], d[5], d[0], d[1], d[4])
	}
	for _, s := range g.Stops {
		out.AddColorStop(s.Offset, ggColour(asRGB(s.StopColor), s.Opacity*w.opacity))
	}
	return out, true
}

// refGG paints on a gg context; false when the paint is one gg can only approximate.
func refGG(c *gg.Context, s *svg.Svg, ps []paint, active string, q func(pt) pt) bool {
	for _, w := range ps {
		c.ResetClip()
		if len(w.masks) > 0 {
			id := w.masks[len(w.masks)-1]
			if m, ok := s.SvgMasks[id]; ok && id != active {
				content, err := refPathPaints(m.SvgPaths, w.m, 1)
				if err != "" {
					return false
				}
				mc := gg.NewContext(c.Width(), c.Height())
				if !refGG(mc, s, content, id, q) {
					return false
				}
				if err := c.SetMask(mc.AsMask()); err != nil {
					panic(err)
				}
			}
		}
		c.ClearPath()
		for _, sp := range w.subs {
			c.NewSubPath()
			start := q(sp.Start)
			c.MoveTo(start.X, start.Y)
			for _, g := range sp.Segs {
				for k := range g.P {
					g.P[k] = q(g.P[k])
				}
				switch g.Kind {
				case 'L':
					c.LineTo(g.P[0].X, g.P[0].Y)
				case 'Q':
					c.QuadraticTo(g.P[0].X, g.P[0].Y, g.P[1].X, g.P[1].Y)
				case 'C':
					c.CubicTo(g.P[0].X, g.P[0].Y, g.P[1].X, g.P[1].Y, g.P[2].X, g.P[2].Y)
				}
			}
			if sp.Closed {
				c.ClosePath()
			}
		}
		if !w.stroke {
			var pat gg.Pattern = gg.NewSolidPattern(ggColour(w.rgb, w.opacity))
			if w.grad != nil {
				g, ok := ggGradient(w)
				if !ok {
					return false
				}
				pat = g
			}
			c.SetFillStyle(pat)
			if w.nonZero {
				c.SetFillRuleWinding()
			} else {
				c.SetFillRuleEvenOdd()
			}
			c.Fill()
			continue
		}
		c.SetStrokeStyle(gg.NewSolidPattern(ggColour(w.rgb, w.opacity)))
		c.SetLineWidth(w.width)
		switch w.cap {
		case svg.RoundCap:
			c.SetLineCap(gg.LineCapRound)
		case svg.SquareCap:
			c.SetLineCap(gg.LineCapSquare)
		default:
			c.SetLineCap(gg.LineCapButt)
		}
		if w.join == svg.Round {
			c.SetLineJoin(gg.LineJoinRound)
		} else {
			c.SetLineJoin(gg.LineJoinBevel)
		}
		dash := make([]float64, len(w.dash))
		for i, v := range w.dash {
			dash[i] = math.Max(v, 1.0/1024)
		}
		c.SetDash(dash...)
		c.SetDashOffset(w.offset)
		c.Stroke()
	}
	return true
}

// cmpImages compares pixels up to rounding of edges. The first column is left out: what lies to the left of
// the image is folded into it by the rasterizer, without antialiasing.
func cmpImages(got, want *image.RGBA, tol int) string {
	worst, at := 0, 0
	for i := range got.Pix {
		if i/4%got.Rect.Dx() == 0 {
			continue
		}
		d := int(got.Pix[i]) - int(want.Pix[i])
		if d < 0 {
			d = -d
		}
		if d > worst {
			worst, at = d, i/4
		}
	}
	if worst > tol {
		w := got.Rect.Dx()
		x, y := at%w, at/w
		return fmt.Sprintf("pixel (%d,%d) is %v instead of %v", x, y, got.RGBAAt(x, y), want.RGBAAt(x, y))
	}
	return ""
}

const ggTol = 20

// quantizers are the ways coordinates may be rounded on their way to the context
var quantizers = []func(pt) pt{
	func(p pt) pt { return pt{X: math.Trunc(p.X*64) / 64, Y: math.Trunc(p.Y*64) / 64} },
	func(p pt) pt { return p },
	func(p pt) pt { return pt{X: math.Round(p.X*64) / 64, Y: math.Round(p.Y*64) / 64} },
	func(p pt) pt { return pt{X: math.Floor(p.X*64) / 64, Y: math.Floor(p.Y*64) / 64} },
}

// scaledStrokes are the paints with widths and dashes of the strokes multiplied by f.
func scaledStrokes(ps []paint, f float64) []paint {
	out := make([]paint, len(ps))
	for i, w := range ps {
		w.width *= f
		w.offset *= f
		w.dash = append([]float64(nil), w.dash...)
		for k := range w.dash {
			w.dash[k] *= f
		}
		subs := append(w.subs[:0:0], w.subs...)
		for k, sp := range subs {
			subs[k].Segs = append(sp.Segs[:0:0], sp.Segs...)
		}
		w.subs = subs
		out[i] = w
	}
	return out
}

// checkGG draws the document times times on the context.
func (x *X) checkGG(c *gg.Context, d *drawing, times int) {
	want, err := refPaints(d)
	if err != "" {
		x.Failf("%s", err)
	}
	first := ""
	var got *image.RGBA
	for i := 0; i < 3*len(quantizers); i++ {
		q := quantizers[i%len(quantizers)]
		// lengths along and across the stroke are rounded by the context: those next to a limit go either way
		paints := scaledStrokes(want, 1+1e-9*[]float64{0, -1, 1}[i/len(quantizers)])
		ref := gg.NewContext(ggW, ggH)
		for k := 0; k < times; k++ {
			if !refGG(ref, d.s, paints, "", q) {
				x.Skip()
			}
		}
		if i == 0 {
			for k := 0; k < times; k++ {
				x.Call("Draw", func() {
					if err := svggg.Draw(c, d.s, d.opts...); err != nil {
						x.Failf("Draw: %v", err)
					}
				})
			}
			got = c.Image().(*image.RGBA)
		}
		e := cmpImages(got, ref.Image().(*image.RGBA), ggTol)
		if e == "" {
			x.OutcomeH(hashStr(string(got.Pix)))
			return
		}
		if i == 0 {
			first = e
		}
	}
	x.Failf("%s", first)
}

func runC21(n int) func(x *X) {
	return func(x *X) {
		d := x.drawing(n, true)
		x.checkGG(gg.NewContext(ggW, ggH), d, 1)
	}
}

func runC21Prior(x *X) {
	c := gg.NewContext(ggW, ggH)
	switch x.Choose(8) {
	case 1:
		c.SetRGB(1, 0, 0)
	case 2:
		c.SetDash(3, 4)
		c.SetLineWidth(9)
	case 3:
		c.SetLineCapSquare()
		c.SetLineJoinBevel()
	case 4:
		c.MoveTo(1, 1)
		c.LineTo(20, 15)
		c.LineTo(3, 18)
	case 5:
		c.DrawRectangle(0, 0, 4, 4)
		c.Clip()
	case 6:
		c.SetFillRuleEvenOdd()
		c.SetFillStyle(gg.NewSolidPattern(color.RGBA{1, 2, 3, 255}))
		c.SetStrokeStyle(gg.NewSolidPattern(color.RGBA{1, 2, 3, 255}))
	case 7:
		c.MoveTo(5, 5)
	}
	d := x.drawing(2, true)
	x.checkGG(c, d, 2)
}

func tr3(t string) string { return ` transform="` + t + `"` }

// mask content and mask users
func runC21Masks(x *X) {
	text := `<svg viewBox="0 0 12 8">`
	n := 1 + x.Choose(2)
	for i := 0; i < n; i++ {
		text += fmt.Sprintf(`<mask id="m%d">`, i)
		k := 1 + x.Choose(2)
		for j := 0; j < k; j++ {
			text += []string{`<rect x="1" y="1" width="5" height="5"`, `<circle cx="6" cy="4" r="3"`, `<path d="M0 0h12v8h-12zM4 2h4v4h-4z"`}[x.Choose(3)]
			text += x.DevPick(` fill="white"`, ` fill="white" fill-opacity="0.5"`, ` fill="none" stroke="black"`, ` fill="none"`, ` fill="white" transform="rotate(20)"`, ` fill="white" fill-rule="evenodd"`, ` fill="black" mask="url(#m0)"`, ` fill="white" stroke="red" stroke-dasharray="2 1" stroke-opacity="0.5"`)
			text += "/>"
		}
		text += "</mask>"
	}
	for j := 0; j < 2; j++ {
		m := x.Pick("url(#m0)", "", "url(#m1)", "url(#none)")
		el := x.DevPick(`<rect width="12" height="8" fill="#ff0000"`, `<path d="M1 7L11 1" stroke="#00ff00"`, `<circle cx="4" cy="4" r="4" fill="#0000ff" stroke="#ffff00"`, `<rect width="12" height="8" fill="none"`)
		tr := x.DevPick("", "translate(4 2)", "scale(.5)", "rotate(45)")
		op := x.DevPick("", ` opacity="0.5"`)
		switch x.Dev(5) {
		case 1:
			text += `<g mask="` + m + `" transform="` + tr + `">` + el + op + `/></g>`
		case 2: // only the innermost mask counts
			text += `<g mask="` + m + `" transform="` + tr + `">` + el + op + ` mask="url(#m1)"/></g>`
		case 3:
			text += `<g mask="url(#m1)"><g` + tr3(tr) + ` mask="` + m + `">` + el + op + `/>` + el + ` mask="url(#m0)"/></g></g>`
		case 4:
			text += `<g mask="url(#m1)">` + el + ` mask="` + m + `"/></g>` + el + op + tr3(tr) + `/>`
		default:
			if m != "" {
				el += ` mask="` + m + `"`
			}
			text += el + op + ` transform="` + tr + `"/>`
		}
	}
	text += "</svg>"
	d := &drawing{text: text}
	x.Desc(func() string { return d.optText + text })
	p := x.parse(text, svg.StrictErrorMode)
	if p.err != nil {
		x.Failf("parsing failed: %v", p.err)
	}
	d.s = p.s
	x.options(d.s, d)
	x.State(text, d.optText)
	x.checkGG(gg.NewContext(ggW, ggH), d, 1)
}

func init() {
	register(&Property{ID: "C21", Rule: "each execution draws one document with the real renderer on a gg context and compares every pixel with the image obtained by driving gg from the parsed document, masks included",
		Assumptions: []string{"gg's own rasterisation is taken as given", "gg has no miter join (bevel instead) and no gradient transforms: gradient fills are compared only in user space equal to device space, gradient strokes are the first stop's colour", "only the innermost mask of a path is applied"},
		Drivers: []*Driver{
			{Name: "one", Quick: 3, Thorough: 4, Run: runC21(1), Note: "1 shape, <= 3 (4) deviations in geometry, 16 style attributes, viewBox, target, opacity"},
			{Name: "two", Quick: 3, Thorough: 4, Run: runC21(2), Note: "2 shapes, <= 3 (4) deviations"},
			{Name: "three", Quick: 2, Thorough: 3, Run: runC21(3), Note: "3 shapes, <= 2 (3) deviations"},
			{Name: "geom1", Quick: 1, Thorough: 2, Run: runGeometry(1, 1, func(x *X, d *drawing) { x.checkGG(gg.NewContext(ggW, ggH), d, 1) }), Note: "all paths of 1 command M, L, Q, C, z over 9 points, open and closed, filled, stroked, dashed; <= 1 (2) deviations in transform and options"},
			{Name: "geom2", Quick: 0, Thorough: 1, Run: runGeometry(2, 2, func(x *X, d *drawing) { x.checkGG(gg.NewContext(ggW, ggH), d, 1) }), Note: "all paths of 2 commands over 4 points"},
			{Name: "geom3", Quick: 0, Thorough: 0, QuickOff: true, Run: runGeometry(3, 3, func(x *X, d *drawing) { x.checkGG(gg.NewContext(ggW, ggH), d, 1) }), Note: "all paths of 3 commands over 4 points"},
			{Name: "prior", Quick: 1, Thorough: 2, Run: runC21Prior, Note: "8 prior states of the context, 2 shapes, drawn twice"},
			{Name: "masks", Quick: 1, Thorough: 3, Run: runC21Masks, Note: "1..2 masks of 1..2 shapes, 2 users, <= 1 (3) deviations in mask content, users, transforms, options"},
		}})
}

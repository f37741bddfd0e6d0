package main

import (
	"fmt"
	"image"
	"image/color"

	"mc/model"

	svg "github.com/lafriks/go-svg"
	svgdraw2d "github.com/lafriks/go-svg/renderer/draw2d"

	"github.com/llgcode/draw2d"
	"github.com/llgcode/draw2d/draw2dbase"
)

// d2event is one fill or stroke issued on a draw2d context.
type d2event struct {
	stroke bool
	subs   []rsub
	rule   draw2d.FillRule
	color  color.Color
	cap    draw2d.LineCap
	join   draw2d.LineJoin
	width  float64
	dash   []float64
	offset float64
}

// recGC records what is painted on a draw2d context; state handling is draw2d's own.
type recGC struct {
	*draw2dbase.StackGraphicContext
	events []d2event
	other  []string
}

func newRecGC() *recGC { return &recGC{StackGraphicContext: draw2dbase.NewStackGraphicContext()} }

func (g *recGC) subs(paths []*draw2d.Path) (out []rsub) {
	all := append(append([]*draw2d.Path{}, paths...), g.Current.Path)
	tr := g.Current.Tr
	at := func(p []float64, i int) pt {
		x, y := tr.TransformPoint(p[i], p[i+1])
		return pt{X: x, Y: y}
	}
	for _, p := range all {
		i := 0
		open := false
		var start pt
		add := func(s model.Seg) {
			if !open {
				out = append(out, rsub{Start: start})
				open = true
			}
			l := &out[len(out)-1]
			l.Segs = append(l.Segs, s)
		}
		for _, c := range p.Components {
			switch c {
			case draw2d.MoveToCmp:
				start = at(p.Points, i)
				out = append(out, rsub{Start: start, Moved: true})
				open = true
				i += 2
			case draw2d.LineToCmp:
				add(model.Seg{Kind: 'L', P: [3]pt{at(p.Points, i)}})
				i += 2
			case draw2d.QuadCurveToCmp:
				add(model.Seg{Kind: 'Q', P: [3]pt{at(p.Points, i), at(p.Points, i+2)}})
				i += 4
			case draw2d.CubicCurveToCmp:
				add(model.Seg{Kind: 'C', P: [3]pt{at(p.Points, i), at(p.Points, i+2), at(p.Points, i+4)}})
				i += 6
			case draw2d.ArcToCmp:
				add(model.Seg{Kind: 'A'})
				i += 6
			case draw2d.CloseCmp:
				if !open {
					out = append(out, rsub{Start: start})
				}
				out[len(out)-1].Closed = true
				open = false
			}
		}
	}
	return
}

func (g *recGC) fill(paths []*draw2d.Path) {
	g.events = append(g.events, d2event{subs: g.subs(paths), rule: g.Current.FillRule, color: g.Current.FillColor})
}

func (g *recGC) stroke(paths []*draw2d.Path) {
	t := g.Current.Tr
	scale := meanScale(model.Mat{A: t[0], B: t[1], C: t[2], D: t[3]})
	e := d2event{stroke: true, subs: g.subs(paths), color: g.Current.StrokeColor, cap: g.Current.Cap, join: g.Current.Join,
		width: g.Current.LineWidth * scale, offset: g.Current.DashOffset * scale}
	for _, d := range g.Current.Dash {
		e.dash = append(e.dash, d*scale)
	}
	g.events = append(g.events, e)
}

func (g *recGC) Fill(paths ...*draw2d.Path)   { g.fill(paths); g.Current.Path.Clear() }
func (g *recGC) Stroke(paths ...*draw2d.Path) { g.stroke(paths); g.Current.Path.Clear() }
func (g *recGC) FillStroke(paths ...*draw2d.Path) {
	g.fill(paths)
	g.stroke(paths)
	g.Current.Path.Clear()
}
func (g *recGC) note(s string)                                     { g.other = append(g.other, s) }
func (g *recGC) DrawImage(image.Image)                             { g.note("DrawImage") }
func (g *recGC) Clear()                                            { g.note("Clear") }
func (g *recGC) ClearRect(x1, y1, x2, y2 int)                      { g.note("ClearRect") }
func (g *recGC) SetDPI(int)                                        {}
func (g *recGC) GetDPI() int                                       { return 92 }
func (g *recGC) GetStringBounds(string) (l, t, r, b float64)       { return }
func (g *recGC) CreateStringPath(string, float64, float64) float64 { g.note("string"); return 0 }
func (g *recGC) FillString(string) float64                         { g.note("string"); return 0 }
func (g *recGC) FillStringAt(string, float64, float64) float64     { g.note("string"); return 0 }
func (g *recGC) StrokeString(string) float64                       { g.note("string"); return 0 }
func (g *recGC) StrokeStringAt(string, float64, float64) float64   { g.note("string"); return 0 }

var d2caps = map[svg.CapMode]draw2d.LineCap{svg.ButtCap: draw2d.ButtCap, svg.NilCap: draw2d.ButtCap, svg.RoundCap: draw2d.RoundCap, svg.SquareCap: draw2d.SquareCap}
var d2joins = map[svg.JoinMode]draw2d.LineJoin{svg.Miter: draw2d.MiterJoin, svg.Round: draw2d.RoundJoin, svg.Bevel: draw2d.BevelJoin}

const pathTol = 0.026 // 1/64 in both directions, plus rounding

func cmpD2(e d2event, w paint) string {
	if e.stroke != w.stroke {
		return fmt.Sprintf("stroke %v instead of %v", e.stroke, w.stroke)
	}
	if d := cmpSubs(e.subs, w.subs, pathTol); d != "" {
		return d
	}
	if d := cmpPlain(e.color, w.rgb, w.opacity); d != "" {
		return d
	}
	if !w.stroke {
		if (e.rule == draw2d.FillRuleWinding) != w.nonZero {
			return fmt.Sprintf("fill rule %v, want nonzero %v", e.rule, w.nonZero)
		}
		return ""
	}
	if c, ok := d2caps[w.cap]; ok && e.cap != c {
		return fmt.Sprintf("line cap %v instead of %v", e.cap, c)
	}
	if j, ok := d2joins[w.join]; ok && e.join != j {
		return fmt.Sprintf("line join %v instead of %v", e.join, j)
	}
	if !nearF(e.width, w.width, 1e-3) {
		return fmt.Sprintf("line width %v instead of %v", e.width, w.width)
	}
	return cmpDashes(e.dash, e.offset, w.dash, w.offset, 1e-3)
}

func (x *X) checkD2(g *recGC, from int, d *drawing) {
	want, err := refPaints(d)
	if err != "" {
		x.Failf("%s", err)
	}
	x.Call("Draw", func() { svgdraw2d.Draw(g, d.s, d.opts...) })
	got := g.events[from:]
	for i := 0; i < len(got) && i < len(want); i++ {
		if e := cmpD2(got[i], want[i]); e != "" {
			x.Failf("paint %d: %s", i, e)
		}
	}
	if len(got) != len(want) {
		x.Failf("%d paints instead of %d", len(got), len(want))
	}
	if len(g.other) > 0 {
		x.Failf("unexpected calls %v", g.other)
	}
	x.Outcome(fmt.Sprint(got))
}

func runC19(n int) func(x *X) {
	return func(x *X) {
		d := x.drawing(n, false)
		x.checkD2(newRecGC(), 0, d)
	}
}

// the state of the context before the draw
func runC19Prior(x *X) {
	g := newRecGC()
	switch x.Choose(9) {
	case 1:
		g.SetFillColor(color.RGBA{1, 2, 3, 4})
	case 2:
		g.SetStrokeColor(color.RGBA{1, 2, 3, 4})
	case 3:
		g.SetLineDash([]float64{9, 8}, 7)
	case 4:
		g.SetLineWidth(17)
	case 5:
		g.SetFillRule(draw2d.FillRuleWinding)
	case 6:
		g.SetLineCap(draw2d.SquareCap)
		g.SetLineJoin(draw2d.MiterJoin)
	case 7:
		g.MoveTo(1, 2)
		g.LineTo(3, 4)
	case 8:
		g.MoveTo(1, 2)
		g.LineTo(3, 4)
		g.FillStroke()
	}
	d := x.drawing(2, false)
	x.checkD2(g, len(g.events), d)
	// and once more on the used context
	d2 := *d
	x.checkD2(g, len(g.events), &d2)
}

func init() {
	register(&Property{ID: "C19", Rule: "each execution draws one document with the real renderer on a recording draw2d context; the sequence of fills and strokes with geometry and style is compared with the one computed from the parsed document",
		Assumptions: []string{"draw2d's own context stack keeps the drawing state of the recorder", "caps and joins draw2d does not know are not compared; a gradient is its first stop's colour (draw2d has no gradients)"},
		Drivers: []*Driver{
			{Name: "one", Quick: 3, Thorough: 4, Run: runC19(1), Note: "1 shape, <= 3 (4) deviations in geometry, 15 style attributes, viewBox, target, opacity"},
			{Name: "two", Quick: 3, Thorough: 4, Run: runC19(2), Note: "2 shapes, <= 3 (4) deviations"},
			{Name: "three", Quick: 2, Thorough: 3, Run: runC19(3), Note: "3 shapes, <= 2 (3) deviations"},
			{Name: "geom1", Quick: 1, Thorough: 2, Run: runGeometry(1, 1, func(x *X, d *drawing) { x.checkD2(newRecGC(), 0, d) }), Note: "all paths of 1 command M, L, Q, C, z over 9 points, open and closed, filled, stroked, dashed; <= 1 (2) deviations in transform and options"},
			{Name: "geom2", Quick: 0, Thorough: 1, Run: runGeometry(2, 2, func(x *X, d *drawing) { x.checkD2(newRecGC(), 0, d) }), Note: "all paths of 2 commands over 4 points"},
			{Name: "geom3", Quick: 0, Thorough: 0, QuickOff: true, Run: runGeometry(3, 3, func(x *X, d *drawing) { x.checkD2(newRecGC(), 0, d) }), Note: "all paths of 3 commands over 4 points"},
			{Name: "prior", Quick: 2, Thorough: 2, Run: runC19Prior, Note: "9 prior states of the context, 2 shapes, drawn twice"},
		}})
}

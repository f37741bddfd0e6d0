package main

import (
	"fmt"
	"image/color"
	"reflect"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
	"golang.org/x/image/math/fixed"
)

// exportedCopy copies the exported fields of a value, deeply.
func exportedCopy(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			p := reflect.New(v.Type().Elem())
			p.Elem().Set(exportedCopy(v.Elem()))
			out.Set(p)
		}
	case reflect.Interface:
		if !v.IsNil() {
			out.Set(exportedCopy(v.Elem()))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				out.Field(i).Set(exportedCopy(v.Field(i)))
			}
		}
	case reflect.Slice:
		if !v.IsNil() {
			out.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
			for i := 0; i < v.Len(); i++ {
				out.Index(i).Set(exportedCopy(v.Index(i)))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(exportedCopy(v.Index(i)))
		}
	case reflect.Map:
		if !v.IsNil() {
			out.Set(reflect.MakeMap(v.Type()))
			for _, k := range v.MapKeys() {
				out.SetMapIndex(k, exportedCopy(v.MapIndex(k)))
			}
		}
	default:
		out.Set(v)
	}
	return out
}

func copyDoc(s *svg.Svg) *svg.Svg {
	return exportedCopy(reflect.ValueOf(s)).Interface().(*svg.Svg)
}

// rebuild makes each path anew with the building methods.
func rebuild(s *svg.Svg) {
	again := func(list []svg.SvgPath) {
		for i := range list {
			var p svg.Path
			for _, op := range list[i].Path {
				switch o := op.(type) {
				case svg.OpMoveTo:
					p.Start(fixed.Point26_6(o))
				case svg.OpLineTo:
					p.Line(fixed.Point26_6(o))
				case svg.OpQuadTo:
					p.QuadBezier(o[0], o[1])
				case svg.OpCubicTo:
					p.CubeBezier(o[0], o[1], o[2])
				case svg.OpClose:
					p.Stop(true)
				}
			}
			list[i].Path = p
		}
	}
	again(s.SvgPaths)
	for _, m := range s.SvgMasks {
		again(m.SvgPaths)
	}
}

func (x *X) samePictures(s, want *svg.Svg, opts []renderer.RenderOption, what string) {
	for b := range backendNames {
		h, w := x.picture(s, b, opts...), x.picture(want, b, opts...)
		if h != w {
			x.Failf("%s: %s draws it differently", what, backendNames[b])
		}
		x.OutcomeH(h)
	}
}

func runC24Copy(n int) func(x *X) {
	return func(x *X) {
		d := x.drawing(n, true)
		what := ""
		var s *svg.Svg
		switch x.Choose(3) {
		case 0:
			s, what = copyDoc(d.s), "a copy of the exported fields"
		case 1:
			s, what = copyDoc(d.s), "a copy with paths built again"
			rebuild(s)
		case 2:
			c := *d.s
			s, what = &c, "a shallow copy"
		}
		x.samePictures(s, d.s, d.opts, what)
	}
}

// ---- edits show ----

const editHead = `<svg viewBox="0 0 12 8">` + drawDefs

func editDoc(attr, val string, geom int) string {
	t := editHead + drawGeoms[geom]
	given := false
	for _, a := range drawAttrs {
		v := a.vals[0]
		if a.name == attr {
			v, given = val, true
		}
		if v != "" {
			t += " " + a.name + `="` + v + `"`
		}
	}
	if !given {
		t += " " + attr + `="` + val + `"`
	}
	return t + `/><rect x="4" y="3" width="6" height="4" fill="#00ff00" stroke="url(#L)"/></svg>`
}

type edit struct {
	attr, val string
	geom      int
}

var edits = func() (out []edit) {
	for _, a := range drawAttrs {
		for _, v := range a.vals {
			if v != "" {
				out = append(out, edit{a.name, v, 0})
			}
		}
	}
	for _, m := range []string{"url(#m1)", "url(#m2)", "url(#m3)", "none"} {
		out = append(out, edit{"mask", m, 0})
	}
	for g := range drawGeoms {
		out = append(out, edit{"fill-rule", "nonzero", g})
	}
	return
}()

// apply gives s, in place, the first path of want.
func applyEdit(s, want *svg.Svg, how int) {
	from := copyDoc(want)
	switch how {
	case 0: // the field values
		s.SvgPaths[0].Style = from.SvgPaths[0].Style
		s.SvgPaths[0].Path = from.SvgPaths[0].Path
	case 1: // inside of the slices
		p, q := &s.SvgPaths[0], from.SvgPaths[0]
		if len(p.Path) == len(q.Path) {
			copy(p.Path, q.Path)
		} else {
			p.Path.Clear()
			p.Path = append(p.Path, q.Path...)
		}
		dash := p.Style.Dash.Dash
		p.Style = q.Style
		if len(dash) == len(q.Style.Dash.Dash) {
			copy(dash, q.Style.Dash.Dash)
			p.Style.Dash.Dash = dash
		}
		p.Style.Masks = append([]string{}, q.Style.Masks...)
	case 2: // a new list of paths
		s.SvgPaths = from.SvgPaths
	case 3: // the whole value
		*s = *from
	}
}

func runC24Edit(n, nt int) func(x *X) {
	return func(x *X) {
		m := n
		if x.Thorough {
			m = nt
		}
		hist := ""
		x.Desc(func() string { return hist })
		b := x.Choose(nBackends)
		opts := []renderer.RenderOption{renderer.Target(1, 2, 25, 15)}
		s := x.mustParse(editDoc("fill", "#456789", 0))
		c := newCanvas(b, picW, picH)
		x.Call("drawing", func() { c.draw(s, opts...) })
		for i := 0; i < m; i++ {
			e := edits[x.Choose(len(edits))]
			how := x.Choose(4)
			text := editDoc(e.attr, e.val, e.geom)
			hist += fmt.Sprintf("%s=%s shape %d edit %d; ", e.attr, e.val, e.geom, how)
			want := x.mustParse(text)
			applyEdit(s, want, how)
			if x.picture(s, b, opts...) != x.fresh(text, b, "t", opts) {
				x.Failf("%s: the edited document is not drawn with %s as its fields say", hist, backendNames[b])
			}
			x.State(hist)
		}
	}
}

// edits of masks, gradients and the view box
func runC24Parts(x *X) {
	b := x.Choose(nBackends)
	doc := func(vb, mask, stop, vec, off string) string {
		return `<svg viewBox="` + vb + `"><linearGradient id="G" gradientUnits="userSpaceOnUse" ` + vec + `><stop offset="` + off + `" stop-color="` + stop + `"/><stop offset="1" stop-color="#0000ff" stop-opacity="0.5"/></linearGradient>` +
			`<mask id="M">` + mask + `</mask><rect width="9" height="7" fill="url(#G)" mask="url(#M)"/><path d="M1 1L9 2 4 7z" fill="url(#G)" stroke="red"/></svg>`
	}
	vbs := []string{"0 0 12 8", "1 2 9 9", "0 0 24 8"}
	masks := []string{`<circle cx="5" cy="4" r="3" fill="white"/>`, `<rect width="5" height="9" fill="white"/>`, `<path d="M0 0h9v9z" fill="white"/><rect width="2" height="2" fill="white"/>`, ``}
	stops := []string{"#ff0000", "#00ff00", "#123456"}
	vecs := []string{`x1="1" x2="8"`, `y2="7" x2="0"`}
	offs := []string{"0", "0.5"}
	pick := func() string {
		return doc(vbs[x.Choose(len(vbs))], masks[x.Choose(len(masks))], stops[x.Choose(len(stops))], vecs[x.Choose(len(vecs))], offs[x.Choose(len(offs))])
	}
	from, to := doc(vbs[0], masks[x.Choose(len(masks))], stops[0], vecs[0], offs[0]), pick()
	x.Desc(func() string { return from + " edited to " + to })
	s, want := x.mustParse(from), x.mustParse(to)
	opts := []renderer.RenderOption{renderer.Target(1, 2, 25, 15)}
	if x.Bool() {
		x.picture(s, b, opts...)
	}
	w := copyDoc(want)
	s.ViewBox = w.ViewBox
	if x.Bool() {
		s.SvgMasks["M"].SvgPaths = w.SvgMasks["M"].SvgPaths
	} else {
		s.SvgMasks = w.SvgMasks
	}
	for i := range s.SvgPaths {
		g, v := s.SvgPaths[i].Style.FillerColor.(svg.Gradient), w.SvgPaths[i].Style.FillerColor.(svg.Gradient)
		copy(g.Stops, v.Stops)
		g.Direction = v.Direction
		s.SvgPaths[i].Style.FillerColor = g
	}
	x.State(from, to, b)
	if x.picture(s, b, opts...) != x.fresh(to, b, "t", opts) {
		x.Failf("the edited document is not drawn with %s as its fields say", backendNames[b])
	}
}

// ---- the colour of a pattern ----

func runC24Plain(x *X) {
	vals := []uint8{0, 1, 2, 15, 16, 17, 64, 127, 128, 129, 200, 254, 255}
	n := len(vals)
	if x.Thorough {
		n = 256
	}
	val := func(k int) uint8 {
		if x.Thorough {
			return uint8(k)
		}
		return vals[k]
	}
	r := val(x.Choose(n))
	a := val(x.Choose(n))
	for _, g := range vals {
		for _, b := range vals {
			c := svg.NewPlainColor(r, g, b, a)
			want := color.NRGBA{R: r, G: g, B: b, A: a}
			x.State(r, g, b, a)
			if c.NRGBA != want {
				x.Failf("NewPlainColor(%d, %d, %d, %d) is %v", r, g, b, a, c)
			}
			got := svg.GetColor(c)
			if !sameColour(got, want) {
				x.Failf("the colour of %v is %v", c, got)
			}
			if !sameColour(c, want) {
				x.Failf("the colour %v converts to something else", c)
			}
		}
	}
	x.Outcome(fmt.Sprint(r, a))
}

func sameColour(a, b color.Color) bool {
	if a == nil || b == nil {
		return a == b
	}
	r, g, bl, al := a.RGBA()
	r2, g2, b2, a2 := b.RGBA()
	return r == r2 && g == g2 && bl == b2 && al == a2
}

func runC24Gradient(n, nt int) func(x *X) {
	return func(x *X) {
		m := n
		if x.Thorough {
			m = nt
		}
		colours := []color.Color{nil, color.NRGBA{255, 0, 0, 255}, svg.NewPlainColor(1, 2, 3, 4), color.Gray{7}, color.RGBA{10, 20, 30, 40}, color.NRGBA{0, 0, 0, 0}}
		g := svg.Gradient{Matrix: svg.Identity, Direction: svg.Linear{0, 0, 1, 0}}
		if x.Bool() {
			g.Direction = svg.Radial{}
		}
		var want color.Color
		desc := ""
		for i := 0; i < m; i++ {
			k := x.Choose(len(colours) + 1)
			if k == len(colours) {
				break
			}
			g.Stops = append(g.Stops, svg.GradStop{StopColor: colours[k], Offset: []float64{0.9, 0.1, 0.5, 0.5}[i%4], Opacity: []float64{0, 1, 0.5}[i%3]})
			if want == nil && colours[k] != nil {
				want = colours[k]
			}
			desc += fmt.Sprint(colours[k], " ")
		}
		if want == nil {
			want = color.Black
		}
		x.Desc(func() string { return desc })
		x.State(desc)
		before := dump(g)
		var got color.Color
		x.Call("GetColor", func() { got = svg.GetColor(g) })
		if !sameColour(got, want) {
			x.Failf("the colour of a gradient with the colours %s is %v", desc, got)
		}
		if dump(g) != before {
			x.Failf("asking for the colour changed the gradient")
		}
		x.Outcome(fmt.Sprint(got))
		x.Call("GetColor", func() { got = svg.GetColor(nil) })
		if !sameColour(got, color.Black) {
			x.Failf("the colour of no pattern is %v", got)
		}
	}
}

// ---- names ----

func runC24Names(x *X) {
	kind := x.Choose(3)
	v := uint8(x.Choose(256))
	var names map[uint8]string
	name := func(v uint8) (s string) {
		x.Call("String", func() {
			switch kind {
			case 0:
				s = svg.CapMode(v).String()
			case 1:
				s = svg.JoinMode(v).String()
			case 2:
				s = svg.GapMode(v).String()
			}
		})
		return
	}
	switch kind {
	case 0:
		names = map[uint8]string{uint8(svg.NilCap): "NilCap", uint8(svg.ButtCap): "ButtCap", uint8(svg.SquareCap): "SquareCap", uint8(svg.RoundCap): "RoundCap", uint8(svg.CubicCap): "CubicCap", uint8(svg.QuadraticCap): "QuadraticCap"}
	case 1:
		names = map[uint8]string{uint8(svg.Arc): "Arc", uint8(svg.Round): "Round", uint8(svg.Bevel): "Bevel", uint8(svg.Miter): "Miter", uint8(svg.MiterClip): "MiterClip", uint8(svg.ArcClip): "ArcClip"}
	case 2:
		names = map[uint8]string{uint8(svg.NilGap): "NilGap", uint8(svg.FlatGap): "FlatGap", uint8(svg.RoundGap): "RoundGap", uint8(svg.CubicGap): "CubicGap", uint8(svg.QuadraticGap): "QuadraticGap"}
	}
	got := name(v)
	x.State(kind, v)
	x.Outcome(got)
	if want, ok := names[v]; ok {
		if got != want {
			x.Failf("mode %d of kind %d is called %q instead of %q", v, kind, got, want)
		}
		return
	}
	for _, n := range names {
		if got == n {
			x.Failf("the unknown mode %d of kind %d is called %q", v, kind, got)
		}
	}
}

func init() {
	register(&Property{ID: "C24", Rule: "each execution draws one hand-made, copied or edited document and the parsed document with equal fields, or asks one value for its colour or name",
		Assumptions: []string{"a document value is edited between draws, not during one"},
		Drivers: []*Driver{
			{Name: "copy1", Quick: 2, Thorough: 3, Run: runC24Copy(1), Note: "documents of 1 shape with <=2 (3) deviations in shape, style, masks, transform, viewBox, options: copied in 3 ways, drawn by 3 renderers"},
			{Name: "copy2", Quick: 2, Thorough: 3, Run: runC24Copy(2), Note: "documents of 2 shapes"},
			{Name: "edit", Quick: -1, Thorough: -1, Run: runC24Edit(1, 2), Note: "sequences of 1 (2) edits between draws, of 70 edits in 4 ways, per renderer"},
			{Name: "parts", Quick: -1, Thorough: -1, Run: runC24Parts, Note: "edits of masks, gradient stops and vectors, and the viewBox, before and after a draw"},
			{Name: "plain", Quick: -1, Thorough: -1, Run: runC24Plain, Note: "plain colours with components from 13 (256) values"},
			{Name: "gradient", Quick: -1, Thorough: -1, Run: runC24Gradient(4, 5), Note: "gradients of <= 4 (5) stops of 6 colours, none included"},
			{Name: "names", Quick: -1, Thorough: -1, Run: runC24Names, Note: "all 256 values of the 3 kinds of modes"},
		}})
}

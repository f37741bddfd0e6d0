package main

import (
	"fmt"
	"math"

	"mc/model"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
)

// ---- C11: the same few masks on several levels ----

func runC11Same(n, nt int) func(x *X) {
	return func(x *X) {
		m := n
		if x.Thorough {
			m = nt
		}
		root := svgRoot(model.E("mask", "id", "m").Add(model.E("line", "x2", "1")), model.E("mask", "id", "n"))
		root.Add(x.forest(m, func(i int, leaf bool) *model.Node {
			nd := model.E("g")
			if leaf {
				nd = model.E("line", "x2", fmt.Sprint(i+1))
			}
			switch x.Choose(5) {
			case 1:
				nd.Set("mask", "url(#m)")
			case 2:
				nd.Set("mask", "url(#n)")
			case 3:
				nd.Set("style", "mask:url(#m)")
			case 4:
				nd.Set("mask", "url(#mm)")
			}
			return nd
		})...)
		x.conform(root, svg.StrictErrorMode)
	}
}

// ---- C12, C04: attributes that do not belong to the element ----

var ownAttrs = map[string][]string{
	"svg": {"viewBox", "width", "height"}, "rect": {"x", "y", "width", "height", "rx", "ry"}, "circle": {"cx", "cy", "r"}, "ellipse": {"cx", "cy", "rx", "ry"},
	"line": {"x1", "y1", "x2", "y2"}, "polyline": {"points"}, "polygon": {"points"}, "path": {"d"}, "g": {}, "title": {}, "desc": {}, "defs": {}, "use": {"x", "y", "href"},
	"mask": {"id", "x", "y", "width", "height"}, "linearGradient": {"id", "x1", "y1", "x2", "y2", "gradientUnits", "gradientTransform", "spreadMethod"},
	"radialGradient": {"id", "cx", "cy", "r", "fx", "fy", "fr", "gradientUnits", "gradientTransform", "spreadMethod"}, "stop": {"offset", "stop-color", "stop-opacity"},
}

var allAttrs = []string{"viewBox", "width", "height", "x", "y", "rx", "ry", "cx", "cy", "r", "x1", "y1", "x2", "y2", "points", "d", "offset", "stop-color", "stop-opacity", "gradientUnits", "gradientTransform", "spreadMethod", "fx", "fy", "fr", "preserveAspectRatio", "version", "patternTransform", "pathLength", "dx", "radius", "rz", "size", "clip-path", "display", "visibility", "font-size", "class", "lang", "tabindex", "maskUnits", "maskContentUnits"}

var strayEls = []string{"svg", "rect", "circle", "ellipse", "line", "polyline", "polygon", "path", "g", "title", "desc", "defs", "use", "mask", "linearGradient", "radialGradient", "stop"}

func runC12Stray(x *X) {
	el := strayEls[x.Choose(len(strayEls))]
	own := map[string]bool{}
	for _, a := range ownAttrs[el] {
		own[a] = true
	}
	name := ""
	switch k := x.Choose(3); k {
	case 0:
		name = allAttrs[x.Choose(len(allAttrs))]
		if own[name] {
			x.Skip()
		}
	default: // other letter case or a longer name
		l := ownAttrs[el]
		if len(l) == 0 {
			x.Skip()
		}
		a := l[x.Choose(len(l))]
		if k == 1 && el == "stop" {
			x.Skip() // declarations are case insensitive
		}
		if k == 1 {
			b := []byte(a)
			i := x.Choose(len(b))
			switch {
			case b[i] >= 'a' && b[i] <= 'z':
				b[i] -= 32
			case b[i] >= 'A' && b[i] <= 'Z':
				b[i] += 32
			default:
				x.Skip()
			}
			name = string(b)
		} else {
			name = x.Pick("data-", "my", "q:", "_", "") + a + x.Pick("", "x", "-x", "2", "_", ".")
			if name == a || own[name] {
				x.Skip()
			}
		}
	}
	val := x.Pick("9", "50%", "1 2 3 4", "M9 9L8 8", "#o", "url(#m)", "red", "bogus", "", "userSpaceOnUse", "scale(2)")
	first := x.Bool()
	mk := func(tag string, kv ...string) *model.Node {
		n := model.E(tag)
		if tag == el && first {
			n.Set(name, val)
		}
		for i := 0; i < len(kv); i += 2 {
			n.Set(kv[i], kv[i+1])
		}
		if tag == el && !first {
			n.Set(name, val)
		}
		return n
	}
	root := mk("svg", "viewBox", "0 0 100 60", "width", "30", "height", "40", "xmlns:q", "urn:q")
	root.Add(mk("defs").Add(mk("rect", "id", "r", "width", "3", "height", "4"), model.E("line", "id", "o", "x2", "77")), mk("title").Add(model.T("t")), mk("desc").Add(model.T("d")),
		mk("mask", "id", "m", "x", "1").Add(mk("circle", "r", "5", "cx", "1")),
		mk("linearGradient", "id", "l", "x1", "0.25").Add(mk("stop", "offset", "0.5", "stop-color", "lime")),
		mk("radialGradient", "id", "k", "r", "0.25").Add(mk("stop", "offset", "1", "stop-color", "blue")),
		mk("g").Add(mk("rect", "width", "7", "height", "8", "fill", "url(#l)"), mk("circle", "r", "6", "stroke", "url(#k)"), mk("ellipse", "rx", "3", "ry", "4"), mk("line", "x1", "3", "y2", "9"),
			mk("polyline", "points", "1 2 3 4"), mk("polygon", "points", "1 2 3 4 9 9"), mk("path", "d", "M1 1L2 2", "mask", "url(#m)")),
		mk("use", "href", "#r", "x", "3"), model.E("line", "x2", "5"))
	x.conform(root, svg.StrictErrorMode)
}

// ---- C17: angles ----

func runC17Angles(x *X) {
	m := []svg.Matrix2D{{A: 1, D: 1}, {A: 2, B: -1, C: 0.5, D: 3, E: -7, F: 4}, {A: 0, B: 1, C: -1, D: 0, E: 100, F: 0.5}, {A: 1e3, D: 1e-3}}[x.Choose(4)]
	deg := float64(x.Choose(721) - 360)
	deg += []float64{0, 0.5, 1e-3, -1e-3, 0.01, 1e-6, 720, 3600}[x.Choose(8)]
	th := deg * math.Pi / 180
	x.Desc(func() string { return fmt.Sprint(m, " angle ", deg) })
	x.State(m, deg)
	c, s, t := math.Cos(th), math.Sin(th), math.Tan(th)
	cmp := func(what string, got, el svg.Matrix2D) {
		for _, p := range probe {
			a, b := apply(got, p), apply(m, apply(el, p))
			tol := 1e-9 * (1 + math.Abs(b.X) + math.Abs(b.Y) + math.Abs(t)*1e3)
			if !(math.Abs(a.X-b.X) <= tol && math.Abs(a.Y-b.Y) <= tol) {
				x.Failf("%s(%v) maps %v to %v, want %v", what, th, p, a, b)
			}
		}
	}
	x.Call("matrix", func() {
		cmp("Rotate", m.Rotate(th), svg.Matrix2D{A: c, B: s, C: -s, D: c})
		if math.Abs(c) > 1e-9 {
			cmp("SkewX", m.SkewX(th), svg.Matrix2D{A: 1, C: t, D: 1})
			cmp("SkewY", m.SkewY(th), svg.Matrix2D{A: 1, B: t, D: 1})
		}
	})
}

// ---- C23: documents with every kind of root ----

func runC23Roots(x *X) {
	attrs := x.Pick("", ` viewBox="0 0 12 8"`, ` viewBox="0 0 0 0"`, ` viewBox="0 0 12 0"`, ` viewBox="0 0 0 8"`, ` viewBox="-3 2 12 8"`) + x.Pick("", ` width="24"`, ` width="0"`, ` width="12px"`) + x.Pick("", ` height="8"`, ` height="0"`)
	body := []string{"", `<rect x="1" y="1" width="7" height="5" fill="#123456" stroke="red"/>`, drawDefs + `<rect x="1" y="1" width="8" height="6" fill="url(#B)" stroke="url(#L)" mask="url(#m1)"/><path d="M1 1L9 7" stroke="url(#R)" stroke-dasharray="2 3"/>`,
		`<title>t</title><desc>d</desc><g transform="rotate(9)" opacity=".5"><circle cx="5" cy="4" r="3"/></g>`, `<path fill="none" d="M1 1"/><path d=""/>`}[x.Choose(5)]
	var opts []renderer.RenderOption
	ot := x.Pick("", "t", "o", "to", "ot", "z", "n", "tt")
	for _, c := range ot {
		switch c {
		case 't':
			opts = append(opts, renderer.Target(3, 2, 18, 15))
		case 'o':
			opts = append(opts, renderer.Opacity(0.5))
		case 'z':
			opts = append(opts, renderer.Target(0, 0, 0, 0))
		case 'n':
			opts = append(opts, renderer.Target(20, 15, -18, -12), renderer.Opacity(0))
		}
	}
	text := "<svg" + attrs + ">" + body + "</svg>"
	b := x.Choose(3)
	b2 := x.Choose(3)
	x.Desc(func() string {
		return fmt.Sprintf("%s then %s, options %q: %s", backendNames[b], backendNames[b2], ot, text)
	})
	x.State(text, ot, b, b2)
	s := x.mustParse(text)
	before := dump(s)
	h := x.picture(s, b, opts...)
	x.unchanged(before, s, "drawing with "+backendNames[b])
	if f := x.fresh(text, b2, ot, opts); f != x.picture(s, b2, opts...) {
		x.Failf("the second picture differs from that of a fresh copy")
	}
	x.unchanged(before, s, "drawing with "+backendNames[b2])
	if p := x.fresh(text, b, "", nil); p != x.picture(s, b) {
		x.Failf("the picture without options differs from that of a fresh copy")
	}
	x.OutcomeH(h)
}

func init() {
	addDrivers("C11", &Driver{Name: "same", Quick: -1, Thorough: -1, Run: runC11Same(4, 5), Note: "all trees of 4 (5) nodes with references to the same few masks"})
	addDrivers("C12", &Driver{Name: "stray", Quick: -1, Thorough: -1, Run: runC12Stray, Note: "17 elements x attributes of other elements, other letter case, longer names x 11 values"})
	addDrivers("C17", &Driver{Name: "angles", Quick: -1, Thorough: -1, Run: runC17Angles, Note: "721 angles x 8 offsets x 4 matrices for Rotate, SkewX, SkewY"})
	addDrivers("C23", &Driver{Name: "roots", Quick: -1, Thorough: -1, Run: runC23Roots, Note: "72 roots with and without viewBox and size x 5 contents x 8 option lists x pairs of renderers"})
}

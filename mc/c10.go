package main

import (
	"fmt"

	"mc/model"

	svg "github.com/lafriks/go-svg"
	"golang.org/x/image/math/fixed"
)

var gradVecs = map[bool][]string{false: {"x1", "y1", "x2", "y2"}, true: {"cx", "cy", "fx", "fy", "r", "fr"}}

func (x *X) gradStop(i int) *model.Node {
	st := model.E("stop")
	if v := x.DevPick(fmt.Sprint("0.", i*3), "", "25%", "1", " 0.5 ", "50%", "0.5%", "1e-1", "99.5 %"); v != "" {
		st.Set("offset", v)
	}
	switch x.Dev(12) {
	case 8:
		st.Set("stop-color", "red").Set("stop-opacity", "50%")
	case 9:
		st.Set("stop-color", "red").Set("stop-opacity", "1.5")
	case 10:
		st.Set("style", "stop-opacity:-2;stop-color:red")
	case 11:
		st.Set("style", "stop-opacity: 0.5%;stop-color:red")
	case 0:
		st.Set("stop-color", []string{"red", "#0f8", "rgb(1,2,3)"}[i%3])
	case 1: // no colour
	case 2:
		st.Set("style", "stop-color:lime")
	case 3:
		st.Set("style", "stop-opacity:0.5;stop-color: navy ;")
	case 4:
		st.Set("stop-color", "red").Set("stop-opacity", "0.25")
	case 5:
		st.Set("style", "stop-color:teal").Set("stop-color", "red").Set("stop-opacity", "0.25")
	case 6:
		st.Set("stop-opacity", "0.75")
	case 7:
		st.Set("style", "stop-opacity: .5").Set("stop-color", "olive").Set("stop-opacity", "1").Set("opacity", "0.1").Set("fill", "blue")
	}
	return st
}

func (x *X) gradNode(id string, stops int) *model.Node {
	radial := x.Bool()
	name := "linearGradient"
	if radial {
		name = "radialGradient"
	}
	g := model.E(name, "id", id)
	for i, a := range gradVecs[radial] {
		if v := x.DevPick("", "10", "20%", "0.3", "5mm", "-15%", " 7 px"); v != "" {
			if i == 4 && v[0] == '-' {
				x.Skip()
			}
			g.Set(a, v)
		}
	}
	if v := x.DevPick("", "userSpaceOnUse", "objectBoundingBox", " userSpaceOnUse "); v != "" {
		g.Set("gradientUnits", v)
	}
	if v := x.DevPick("", "pad", "reflect", "repeat"); v != "" {
		g.Set("spreadMethod", v)
	}
	if v := x.DevPick("", "translate(3,4)", "rotate(30) scale(2,.5)", "matrix(1 2 -3 4 5 6)", "scale(2) translate(1)"); v != "" {
		g.Set("gradientTransform", v)
	}
	for i := 0; i < stops; i++ {
		g.Add(x.gradStop(i))
	}
	return g
}

func runC10Attrs(x *X) {
	g := x.gradNode("g", x.Choose(3))
	if x.Dev(2) == 1 { // id last
		g.Attrs = append(g.Attrs[1:], g.Attrs[0])
	}
	root := model.E("svg")
	switch x.Dev(4) {
	case 0:
		root.Set("viewBox", "0 0 100 60")
	case 1:
		root.Set("viewBox", "-10 20 200 30")
	case 2:
		root.Set("width", "80").Set("height", "40")
	case 3:
		root.Set("width", "80").Set("height", "40").Set("viewBox", "5 6 70 80")
	}
	x.gradPlace(root, g)
	sh := model.E("rect", "width", "5", "height", "6")
	switch x.Dev(7) {
	case 0:
		sh.Set("fill", "url(#g)")
	case 1:
		sh.Set("stroke", "url(#g)")
	case 2:
		sh.Set("style", "fill:url(#g);stroke:url( #g )")
	case 3:
		sh = model.E("g", "fill", "url(#g)", "stroke", "teal").Add(sh)
	case 4:
		sh = model.E("g", "fill", "purple", "stroke", "teal").Add(sh.Set("fill", "url(#g)").Set("stroke", "url(#g)"))
	case 5:
		sh = model.E("g", "fill", "none").Add(sh.Set("fill", "url(#g)"))
	case 6:
		sh.Set("fill", "url(#g)").Set("transform", "scale(2)").Set("opacity", "0.5")
	}
	root.Add(sh, model.E("line", "x2", "4", "stroke", "url(#g)"))
	x.conform(root, svg.StrictErrorMode)
}

// every order of the attributes of a gradient element
func runC10Order(x *X) {
	units := x.Pick("userSpaceOnUse", "objectBoundingBox", "")
	pct := x.Bool()
	attrs := [][2]string{{"x1", "10"}, {"y1", "20"}, {"x2", "70"}, {"y2", "40"}, {"id", "g"}, {"gradientTransform", "scale(2) translate(1)"}}
	name := "linearGradient"
	if x.Bool() {
		name = "radialGradient"
		attrs = [][2]string{{"cx", "10"}, {"cy", "20"}, {"fx", "70"}, {"fy", "40"}, {"r", "30"}, {"id", "g"}}
	}
	if units != "" {
		attrs = append(attrs, [2]string{"gradientUnits", units})
	}
	g := model.E(name)
	for len(attrs) > 0 {
		k := x.Choose(len(attrs))
		v := attrs[k][1]
		if pct && v[0] >= '1' && v[0] <= '9' {
			v += "%"
		}
		g.Set(attrs[k][0], v)
		attrs = append(append([][2]string{}, attrs[:k]...), attrs[k+1:]...)
	}
	g.Add(model.E("stop", "offset", "0", "stop-color", "red"), model.E("stop", "offset", "1"))
	root := model.E("svg", "viewBox", "-10 20 200 30").Add(g, model.E("rect", "width", "5", "height", "6", "fill", "url(#g)"))
	x.conform(root, svg.StrictErrorMode)
}

func (x *X) gradPlace(root, g *model.Node) {
	switch x.Dev(7) {
	case 0:
		root.Add(g)
	case 1:
		root.Add(model.E("defs").Add(g))
	case 2:
		root.Add(model.E("g", "transform", "translate(9,9) scale(3)", "fill", "olive", "opacity", "0.5").Add(g))
	case 3:
		root.Add(model.E("g", "transform", "scale(3)").Add(model.E("defs", "transform", "rotate(5)").Add(model.E("line", "id", "z"), g, model.E("line", "id", "y"))))
	case 4:
		root.Add(model.E("defs").Add(model.E("g", "transform", "scale(3)", "id", "zz").Add(model.E("line"), g, model.E("line"))))
	case 5:
		root.Add(model.E("svg", "viewBox", "0 0 7 9").Add(g))
	case 6:
		root.Add(model.E("mask", "id", "m").Add(g))
	}
}

// histories of definitions and references
func runC10History(x *X) {
	n := 6
	if x.Thorough {
		n = 7
	}
	l := model.E("linearGradient", "id", "l", "x2", "0.5").Add(model.E("stop", "offset", "0", "stop-color", "red"), model.E("stop", "offset", "1"))
	r := model.E("radialGradient", "id", "r", "gradientUnits", "userSpaceOnUse", "r", "10%", "fx", "3").Add(model.E("stop", "offset", "0.25"), model.E("stop", "offset", "0.5", "stop-color", "blue", "stop-opacity", "0.5"))
	e := model.E("linearGradient", "id", "e", "spreadMethod", "reflect")
	root := svgRoot()
	have := map[string]bool{}
	ref := func(id string) string {
		if !have[id] {
			x.Skip()
		}
		return "url(#" + id + ")"
	}
	def := func(g *model.Node, id string) *model.Node {
		if have[id] {
			x.Skip()
		}
		have[id] = true
		return g
	}
	line := func(kv ...string) *model.Node { return model.E("line", append([]string{"x2", "7"}, kv...)...) }
	for i := 0; i < n; i++ {
		switch x.Choose(12) {
		case 0:
			root.Add(def(l, "l"))
		case 1:
			root.Add(model.E("defs", "fill", "yellow").Add(def(r, "r")))
		case 2:
			root.Add(def(e, "e"))
		case 3:
			root.Add(line("fill", ref("l")))
		case 4:
			root.Add(line("stroke", ref("l"), "fill", ref("l")))
		case 5:
			root.Add(model.E("g", "fill", "lime", "stroke", "navy").Add(line("fill", ref("l"), "stroke", ref("l"))))
		case 6:
			root.Add(model.E("g", "fill", ref("r")).Add(line(), line("stroke", ref("r"))))
		case 7:
			root.Add(model.E("g", "stroke", "#123456", "transform", "scale(2)").Add(line("style", "stroke:"+ref("r")), line()))
		case 8:
			root.Add(line("fill", ref("e")))
		case 9:
			id := fmt.Sprint("u", i)
			root.Add(model.E("defs").Add(line("id", id, "fill", ref("l"))), model.E("use", "href", "#"+id, "fill", "fuchsia"), model.E("use", "href", "#"+id, "fill", "aqua"))
		case 10:
			root.Add(model.E("mask", "id", fmt.Sprint("m", i), "fill", "gold").Add(line("fill", ref("r"))))
		case 11:
			root.Add(line("fill", "none"))
		}
	}
	x.conform(root, svg.StrictErrorMode)
}

// two gradients with stop lists do not mix
func runC10Stops(x *X) {
	n := 3
	if x.Thorough {
		n = 4
	}
	mk := func(name, id string) *model.Node {
		g := model.E(name, "id", id)
		k := x.Choose(n + 1)
		for i := 0; i < k; i++ {
			st := model.E("stop", "offset", []string{"0", "0.25", "75%", "1"}[i])
			switch x.Choose(3) {
			case 0:
				st.Set("stop-color", []string{"red", "lime", "blue", "white"}[i])
			case 1:
				st.Set("style", "stop-color:#abc;stop-opacity:0.5")
			}
			g.Add(st)
		}
		return g
	}
	a := mk("linearGradient", "a")
	b := mk("radialGradient", "b")
	if x.Bool() {
		a.Add(model.R("<!-- c -->", ""), model.T("\n "))
	}
	root := svgRoot(model.E("defs").Add(a, b), model.E("g", "fill", "teal", "stroke", "navy").Add(
		model.E("line", "x2", "1", "fill", "url(#a)", "stroke", "url(#b)"), model.E("line", "x2", "1", "fill", "url(#b)", "stroke", "url(#a)"), model.E("line", "x2", "1")))
	x.conform(root, svg.StrictErrorMode)
}

// ApplyPathExtent maps the gradient to the extent of a path
func runC10Extent(x *X) {
	vals := []int{0, 64, -640, 1000, 33}
	ext := fixed.Rectangle26_6{}
	ext.Min.X = fixed.Int26_6(vals[x.Choose(5)])
	ext.Min.Y = fixed.Int26_6(vals[x.Choose(5)])
	ext.Max.X = ext.Min.X + fixed.Int26_6([]int{64, 6400, 97, 0}[x.Choose(4)])
	ext.Max.Y = ext.Min.Y + fixed.Int26_6([]int{64, 6400, 97, 0}[x.Choose(4)])
	g := x.gradNode("g", 2)
	text := svgRoot(g, model.E("line", "x2", "1", "fill", "url(#g)"), model.E("line", "x2", "1", "fill", "url(#g)")).XML()
	x.Desc(func() string { return fmt.Sprint(text, " extent ", ext) })
	p := x.parse(text, svg.StrictErrorMode)
	if p.err != nil {
		x.Failf("parse: %v", p.err)
	}
	a, ok := p.s.SvgPaths[0].Style.FillerColor.(svg.Gradient)
	if !ok {
		x.Failf("fill is %T", p.s.SvgPaths[0].Style.FillerColor)
	}
	before := fmt.Sprint(p.s.SvgPaths)
	dir := a.Direction
	var m svg.Matrix2D
	x.Call("ApplyPathExtent", func() { m = a.ApplyPathExtent(ext) })
	want := mat(a.Matrix)
	if a.Units == svg.ObjectBoundingBox {
		f := func(v fixed.Int26_6) float64 { return float64(v) / 64 }
		want = model.Mat{A: f(ext.Max.X - ext.Min.X), D: f(ext.Max.Y - ext.Min.Y), E: f(ext.Min.X), F: f(ext.Min.Y)}.Mul(want)
	}
	if e := cmpMat(mat(m), want, true); e != "" {
		x.Failf("%s", e)
	}
	if fmt.Sprint(dir) != fmt.Sprint(a.Direction) {
		x.Failf("direction changed")
	}
	if fmt.Sprint(p.s.SvgPaths) != before {
		x.Failf("the document changed")
	}
	x.State(m.A, m.B, m.C, m.D, m.E, m.F)
	x.Outcome(fmt.Sprint(m))
}

func init() {
	register(&Property{ID: "C10", Rule: "each execution is one gradient definition and reference history",
		Assumptions: []string{"a stop without colour refers to the colour in force for the same paint on the referring element's parent or earlier on the element", "gradient inheritance by href is not part of the supported subset", "references precede use, ids are unique"},
		Drivers: []*Driver{
			{Name: "attrs", Quick: 3, Thorough: 4, Run: runC10Attrs, Note: "linear and radial, 0..2 stops, <=3 (4) deviations over vector, units, spread, transform, stop attributes, viewBox, placement (7) and reference (7)"},
			{Name: "order", Quick: -1, Thorough: -1, Run: runC10Order, Note: "every order of the (6 or 7) attributes of a linear or radial gradient, with percentages or numbers, in each unit"},
			{Name: "history", Quick: -1, Thorough: -1, Run: runC10History, Note: "sequences of 6 (7) definitions and references of 12 kinds"},
			{Name: "stops", Quick: -1, Thorough: -1, Run: runC10Stops, Note: "all pairs of stop lists of <= 3 (4) stops of 3 kinds"},
			{Name: "extent", Quick: 1, Thorough: 2, Run: runC10Extent, Note: "400 extents x gradients with <=1 (2) deviations"},
		}})
}

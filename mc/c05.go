package main

import (
	"mc/model"

	svg "github.com/lafriks/go-svg"
)

type lenSlot struct {
	name string
	neg  bool // negative values allowed
	mk   func(v string) []*model.Node
}

func one(n *model.Node) []*model.Node { return []*model.Node{n} }

func lenSlots() (out []lenSlot) {
	shape := func(el, attr string, neg bool, rest ...string) {
		out = append(out, lenSlot{el + "/" + attr, neg, func(v string) []*model.Node {
			return one(model.E(el, rest...).Set(attr, v))
		}})
	}
	shape("rect", "x", true, "y", "3", "width", "20", "height", "10")
	shape("rect", "y", true, "x", "3", "width", "20", "height", "10")
	shape("rect", "width", false, "x", "3", "y", "4", "height", "10")
	shape("rect", "height", false, "x", "3", "y", "4", "width", "10")
	shape("rect", "rx", false, "width", "900", "height", "1000", "ry", "3")
	shape("rect", "ry", false, "width", "900", "height", "1000", "rx", "3")
	shape("rect", "rx", false, "width", "900", "height", "1000")
	shape("rect", "ry", false, "width", "900", "height", "1000")
	shape("circle", "cx", true, "cy", "1", "r", "5")
	shape("circle", "cy", true, "cx", "1", "r", "5")
	shape("circle", "r", false, "cx", "1", "cy", "5")
	shape("ellipse", "cx", true, "cy", "1", "rx", "5", "ry", "7")
	shape("ellipse", "cy", true, "cx", "1", "rx", "5", "ry", "7")
	shape("ellipse", "rx", false, "cx", "1", "cy", "5", "ry", "7")
	shape("ellipse", "ry", false, "cx", "1", "cy", "5", "rx", "7")
	for _, a := range []string{"x1", "y1", "x2", "y2"} {
		shape("line", a, true)
	}
	for _, a := range []string{"stroke-width", "stroke-dashoffset", "stroke-dasharray"} {
		shape("line", a, false, "x2", "5", "stroke", "red")
		a := a
		out = append(out, lenSlot{"style/" + a, false, func(v string) []*model.Node {
			return one(model.E("g", "style", "fill:red; "+a+" : "+v).Add(model.E("line", "y2", "4")))
		}})
	}
	out = append(out, lenSlot{"dashes", false, func(v string) []*model.Node {
		return one(model.E("line", "x2", "9", "stroke-dasharray", "3,"+v+" 2mm"))
	}})
	for _, a := range []string{"x", "y"} {
		a := a
		out = append(out, lenSlot{"use/" + a, true, func(v string) []*model.Node {
			return []*model.Node{model.E("defs").Add(model.E("rect", "id", "r", "width", "5", "height", "6")),
				model.E("use", "href", "#r").Set(a, v), model.E("line", "x2", "1")}
		}})
	}
	for _, a := range []string{"x", "y", "width", "height"} {
		a := a
		out = append(out, lenSlot{"mask/" + a, true, func(v string) []*model.Node {
			return []*model.Node{model.E("mask", "id", "m").Set(a, v).Add(model.E("line", "x2", "1"))}
		}})
	}
	grad := func(el, attr, units string) {
		out = append(out, lenSlot{el + "/" + attr + "/" + units, true, func(v string) []*model.Node {
			g := model.E(el, "id", "g").Set(attr, v)
			if units != "" {
				g.Set("gradientUnits", units)
			}
			return []*model.Node{g.Add(model.E("stop", "offset", "0", "stop-color", "red")), model.E("line", "x2", "1", "fill", "url(#g)")}
		}})
	}
	for _, u := range []string{"", "userSpaceOnUse", "objectBoundingBox"} {
		for _, a := range []string{"x1", "y1", "x2", "y2"} {
			grad("linearGradient", a, u)
		}
		for _, a := range []string{"cx", "cy", "fx", "fy", "r", "fr"} {
			grad("radialGradient", a, u)
		}
	}
	return
}

var c05slots = lenSlots()

func c05root(k int) *model.Node {
	switch k {
	case 0:
		return model.E("svg", "viewBox", "0 0 200 50")
	case 1:
		return model.E("svg", "viewBox", "10 20 100 60", "width", "700", "height", "900")
	case 2:
		return model.E("svg", "width", "300", "height", "40")
	case 3:
		return model.E("svg", "height", "1in", "width", "2cm")
	case 4:
		return model.E("svg", "width", "300", "viewBox", "-5 -6 0 80", "height", "7")
	case 5:
		return model.E("svg", "height", "20px", "viewBox", "0,0,64,64", "width", " 30pt")
	}
	return model.E("svg")
}

func runC05(x *X) {
	slot := c05slots[x.Choose(len(c05slots))]
	root := c05root(x.Choose(7))
	vals := []string{"10", "1.5", ".75", "0", "1e1", "+3", "25.", "-7", "-.5"}
	n := len(vals)
	if !slot.neg {
		n -= 2
	}
	v := vals[x.Choose(n)]
	gap := x.Pick("", " ")
	u := x.Pick("", "px", "cm", "mm", "pt", "in", "Q", "pc", "%")
	if slot.name == "dashes" {
		gap = ""
	}
	if (slot.name == "line/stroke-dasharray" || slot.name == "style/stroke-dasharray") && gap != "" {
		x.Skip() // a list: white space separates
	}
	s := v + gap + u
	if x.Bool() {
		s = " " + s + "\n"
	}
	if x.Thorough && x.Bool() {
		root.Add(model.E("svg", "viewBox", "0 0 7 9", "width", "3", "height", "4"))
	}
	root.Add(slot.mk(s)...)
	x.conform(root, svg.StrictErrorMode)
}

func runC05Root(x *X) {
	root := model.E("svg")
	vb := x.Pick("", "0 0 24 48", "1.5,-2 30 40", "0 0 0 0", "0 0 10 0", "5 6 0 20", "1e1 1E1 2e1 2e1")
	us := []string{"", "px", "cm", "mm", "pt", "in", "Q", "pc"}
	w, h := "", ""
	if k := x.Choose(1 + len(us)); k > 0 {
		w = x.Pick("32", "1.5", "0", " 7 ") + us[k-1]
	}
	if k := x.Choose(1 + len(us)); k > 0 {
		h = x.Pick("11", ".5", "0") + us[k-1]
	}
	if vb != "" {
		root.Set("viewBox", vb)
	}
	if w != "" {
		root.Set("width", w)
	}
	if h != "" {
		root.Set("height", h)
	}
	x.reorder(root)
	root.Add(model.E("rect", "x", "10%", "y", "20%", "width", "50%", "height", "50%"), model.E("circle", "r", "30%"))
	x.conform(root, svg.StrictErrorMode)
}

func init() {
	register(&Property{ID: "C05", Rule: "each execution puts one spelled length in one attribute of one element under one root configuration",
		Assumptions: []string{"percentages on the root's own width and height are outside the property"},
		Drivers: []*Driver{
			{Name: "attr", Quick: -1, Thorough: -1, Run: runC05, Note: "70 length attributes x 7 root configurations x 7..9 numbers x 9 units x white space (thorough: x nested svg before it)"},
			{Name: "root", Quick: -1, Thorough: -1, Run: runC05Root, Note: "viewBox/width/height presence, units and order, seen through percentages"},
		}})
}

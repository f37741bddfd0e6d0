package main

import (
	"fmt"
	"strings"

	"mc/model"

	svg "github.com/lafriks/go-svg"
)

// ---- C01: arcs between the other commands ----

func runC01Arcs(n, nt int) func(x *X) {
	return func(x *X) {
		m := n
		if x.Thorough {
			m = nt
		}
		arcs := []string{"a4 3 20 0 1 5 6", "A4 3 0 1 0 12 9", "a1 1 0 0 0 0 0", "a0 2 0 0 1 3 1", "A5 0 0 0 1 2 8", "a4 3 0 0 1 5 6 2 2 0 1 0 -3 1"}
		d := x.Pick("M1 2", "m3 4 5 6")
		k, any := 3, false
		for i := 0; i < m; i++ {
			c := x.Choose(len(pathCmds) + len(arcs))
			if c >= len(pathCmds) {
				d += arcs[c-len(pathCmds)]
				any = true
				continue
			}
			d += pathCmds[c]
			for j := 0; j < pathArgs[strings.ToUpper(pathCmds[c])]; j++ {
				d += " " + argNum(k)
				k++
			}
		}
		if !any {
			x.Skip()
		}
		x.conform(svgRoot(model.E("path", "d", d)), svg.StrictErrorMode)
	}
}

// ---- C01: points that coincide ----

func runC01Same(n, nt int) func(x *X) {
	return func(x *X) {
		m := n
		if x.Thorough {
			m = nt
		}
		d := x.Pick("M0 0", "M5 5", "m5 0 0 5")
		for i := 0; i < m; i++ {
			c := pathCmds[x.Choose(len(pathCmds))]
			d += c
			a := pathArgs[strings.ToUpper(c)]
			if a == 0 {
				continue
			}
			groups := 1 + x.Choose(2)
			for g := 0; g < groups; g++ {
				v := [][2]string{{"0", "0"}, {"5", "5"}, {"5", "0"}, {"-5", "0"}}[x.Choose(4)]
				for j := 0; j < a; j++ {
					d += " " + v[j%2]
				}
			}
		}
		x.conform(svgRoot(model.E("path", "d", d)), svg.StrictErrorMode)
	}
}

// ---- C05: lists of lengths with different units ----

func runC05Lists(x *X) {
	units := []string{"", "px", "cm", "mm", "pt", "in", "pc", "Q", "%"}
	n := 2 + x.Choose(2)
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, []string{"4", "3", ".5"}[i]+units[x.Choose(len(units))])
	}
	v := strings.Join(l, x.Pick(" ", ",", ", "))
	root := model.E("svg", "viewBox", "1 2 30 40")
	line := model.E("line", "id", "p")
	switch x.Choose(3) {
	case 0:
		line.Set("stroke-dasharray", v)
	case 1:
		line.Set("style", "stroke-dasharray:"+v)
	case 2:
		line.Set("x1", l[0]).Set("y1", l[1]).Set("x2", l[n-1]).Set("y2", l[0])
	}
	x.conform(root.Add(line, model.E("line", "x2", "10%")), svg.StrictErrorMode)
}

// ---- C08: malformed transforms anywhere ----

var badTransforms = []string{"none", "scale", "scale(", "scale()", "scale(1", "scale)2(", "()", "(1)", "foo(1)", "rotate(1 2)", "rotate(1 2 3 4)", "translate(1,2,3)", "translate()", "matrix(1 2 3 4 5)", "matrix(1 2 3 4 5 6 7)", "skewX(1 2)", "skewY()", "scale(1 2 3)", "scale(2)rotate", "scale(2)x", "scale(2)rotate(1", "inherit", "0", "scale(2))", "scale((2)", "identity()", "rotate(5,6)", "scale(.)", "scale(1e)", "rotate(-)"}

func runC08Malformed(x *X) {
	bad := badTransforms[x.Choose(len(badTransforms))]
	good := append([]string{""}, specialTransforms...)[x.Choose(len(specialTransforms)+1)]
	line := model.E("line", "x2", "5")
	root := svgRoot()
	g := model.E("g")
	if good != "" {
		g.Set("transform", good)
	}
	switch x.Choose(5) {
	case 0:
		root.Add(g.Add(line.Set("transform", bad)))
	case 1:
		root.Add(g.Add(line.Set("style", "transform:"+bad)))
	case 2:
		root.Add(line.Set("transform", good+bad))
	case 3:
		root.Add(g.Add(model.E("linearGradient", "id", "l", "gradientTransform", good+bad).Add(model.E("stop")), line))
	case 4:
		root.Add(model.E("defs").Add(line.Set("id", "d").Set("transform", bad)), g.Add(model.E("use", "href", "#d")))
	}
	x.conform(root, svg.ErrorMode(x.Choose(3)))
}

// ---- C09: use elements inside of nested elements of all kinds ----

func runC09Inside(n, nt int) func(x *X) {
	return func(x *X) {
		m := n
		if x.Thorough {
			m = nt
		}
		root := svgRoot(model.E("defs").Add(model.E("g", "id", "a", "transform", "scale(2)").Add(model.E("line", "x2", "1"), model.E("use", "href", "#b", "y", "7")),
			model.E("line", "id", "b", "x2", "3", "stroke", "red")))
		// the definition of b comes after its use in a, which is looked up when a is used
		cur := root
		for i := 0; i < m; i++ {
			var e *model.Node
			switch x.Choose(7) {
			case 0:
				e = model.E("g")
			case 1:
				e = model.E("g", "transform", "translate(3 4)", "fill", "lime")
			case 2:
				e = model.E("mask", "id", fmt.Sprint("m", i))
			case 3:
				e = model.E("mask", "id", fmt.Sprint("m", i), "transform", "scale(3)", "stroke-width", "3")
			case 4:
				e = model.E("svg", "viewBox", "0 0 5 5")
			case 5:
				e = model.E("unknown", "opacity", "0.5")
			case 6:
				e = model.E("g", "mask", "url(#m0)")
			}
			cur.Add(e, model.E("line", "x2", fmt.Sprint(10+i)))
			cur = e
		}
		use := model.E("use", "href", x.Pick("#a", "#b"))
		x.opt(use, "x", "", "5", "10%")
		x.opt(use, "y", "", "6")
		x.opt(use, "transform", "", "rotate(90)")
		cur.Add(use, model.E("line", "x2", "20"))
		x.conform(root, svg.IgnoreErrorMode)
	}
}

// ---- C12: pairs of sizes ----

func runC12Sizes(x *X) {
	texts := []string{"", "5", "5px", "5.0", "05", "+5", "5 ", " 5", "5mm", "5cm", "5in", "5pt", "5pc", "5Q", "5%", "100%", "100", "1e1", "10", "0", "0px", "7", ".5", "5.", "5 px", "24", "24px"}
	root := model.E("svg")
	w, h := texts[x.Choose(len(texts))], texts[x.Choose(len(texts))]
	set := func(k, v string) {
		if v != "" {
			root.Set(k, v)
		}
	}
	vb := x.Pick("", "0 0 5 5", "1 2 30 40")
	switch x.Choose(3) {
	case 0:
		set("width", w)
		set("height", h)
		set("viewBox", vb)
	case 1:
		set("height", h)
		set("viewBox", vb)
		set("width", w)
	case 2:
		set("viewBox", vb)
		set("width", w)
		set("height", h)
	}
	x.conform(root.Add(model.E("line", "x2", "4")), svg.StrictErrorMode)
}

func init() {
	addDrivers("C01", &Driver{Name: "arcs", Quick: -1, Thorough: -1, Run: runC01Arcs(3, 4), Note: "3 (4) of 18 commands and 6 arcs, with at least one arc"},
		&Driver{Name: "same", Quick: -1, Thorough: -1, Run: runC01Same(2, 3), Note: "2 (3) commands x 1..2 groups of points of 0 and 5, which coincide"})
	addDrivers("C05", &Driver{Name: "lists", Quick: -1, Thorough: -1, Run: runC05Lists, Note: "2..3 lengths with all combinations of 9 units"})
	addDrivers("C08", &Driver{Name: "malformed", Quick: -1, Thorough: -1, Run: runC08Malformed, Note: fmt.Sprintf("%d malformed transforms below and behind %d others, in 5 places and 3 modes", len(badTransforms), len(specialTransforms)+1)})
	addDrivers("C09", &Driver{Name: "inside", Quick: -1, Thorough: -1, Run: runC09Inside(4, 6), Note: "a use below 4 (6) nested elements of 7 kinds"})
	addDrivers("C12", &Driver{Name: "sizes", Quick: -1, Thorough: -1, Run: runC12Sizes, Note: "all pairs of 27 texts of the root's width and height"})
}

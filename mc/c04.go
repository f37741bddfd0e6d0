package main

import (
	"mc/model"

	svg "github.com/lafriks/go-svg"
)

// opt adds an attribute when the chosen value is not "".
func (x *X) opt(n *model.Node, k string, vals ...string) string {
	v := x.Pick(vals...)
	if v != "" {
		n.Set(k, v)
	}
	return v
}

// reorder permutes the attributes: all rotations of both directions.
func (x *X) reorder(n *model.Node) {
	l := len(n.Attrs)
	if l < 2 {
		return
	}
	r := x.Choose(2 * l)
	a := append([][2]string{}, n.Attrs...)
	if r >= l {
		for i := 0; i < l/2; i++ {
			a[i], a[l-1-i] = a[l-1-i], a[i]
		}
		r -= l
	}
	n.Attrs = append(append([][2]string{}, a[r:]...), a[:r]...)
}

func dirtyShape(k int) *model.Node {
	if k < dirtyKinds {
		return dirtyElement(k)
	}
	switch k {
	case dirtyKinds:
		return model.E("rect", "x", "3", "y", "4", "width", "8", "height", "9", "rx", "2", "ry", "3")
	case dirtyKinds + 1:
		return model.E("ellipse", "cx", "3", "cy", "4", "rx", "8", "ry", "9")
	case dirtyKinds + 2:
		return model.E("path", "d", "M 1 1 A 4 5 30 1 0 9 9")
	}
	return model.E("line", "x1", "3", "y1", "4", "x2", "8", "y2", "9")
}

const dirtyShapes = 9

func (x *X) shapeDoc(n *model.Node) {
	x.reorder(n)
	root := svgRoot()
	d := 0
	if x.Thorough || len(n.Attrs) <= 4 {
		d = x.Choose(dirtyShapes)
	}
	if e := dirtyShape(d); e != nil {
		root.Add(e)
	}
	root.Add(n)
	x.conform(root, svg.StrictErrorMode)
}

func runC04Rect(x *X) {
	n := model.E("rect")
	x.opt(n, "x", "", "5", "-3.5")
	x.opt(n, "y", "", "7.25", "-10")
	w := x.opt(n, "width", "", "20", "7.5", "0", "33")
	h := x.opt(n, "height", "", "12", "40.5", "0")
	rx := x.opt(n, "rx", "", "2", "5", "30", "0")
	ry := x.opt(n, "ry", "", "3", "5", "6.5", "50", "0")
	if (w == "0" || w == "" || h == "0" || h == "") && !(rx == "" && ry == "") && !x.Thorough {
		x.Skip()
	}
	x.shapeDoc(n)
}

func runC04Ellipse(x *X) {
	if x.Bool() {
		n := model.E("circle")
		x.opt(n, "cx", "", "5", "-3.5", "40")
		x.opt(n, "cy", "", "7.25", "-10")
		x.opt(n, "r", "", "0", "1", "8.5", "100", "0.25")
		x.shapeDoc(n)
		return
	}
	n := model.E("ellipse")
	x.opt(n, "cx", "", "5", "-3.5")
	x.opt(n, "cy", "", "7.25", "-10")
	x.opt(n, "rx", "", "0", "1", "8.5", "60", "20")
	x.opt(n, "ry", "", "0", "1", "9.5", "100", "5")
	x.shapeDoc(n)
}

func runC04Line(x *X) {
	n := model.E("line")
	for _, k := range []string{"x1", "y1", "x2", "y2"} {
		x.opt(n, k, "", "5", "-3.5", "0")
	}
	x.shapeDoc(n)
}

func runC04Poly(x *X) {
	n := model.E(x.Pick("polyline", "polygon"))
	maxK := 5
	if x.Thorough {
		maxK = 6
	}
	k := x.Choose(maxK)
	if k > 0 {
		p := ""
		pts := k
		if k == 1 {
			pts = 0
		}
		for i := 0; i < pts; i++ {
			if i > 0 {
				p += x.Pick(" ", ",", "\n")
			}
			p += x.Pick("1,2", "5 -3", "-4.5-6", "0,0")
		}
		n.Set("points", p)
	}
	if x.Bool() {
		n.Set("fill", "red")
	}
	x.shapeDoc(n)
}

// sequences of shapes: none may influence another
func runC04Seq(n int) func(x *X) {
	return func(x *X) {
		menu := []*model.Node{
			model.E("rect", "width", "10", "height", "8"),
			model.E("rect", "x", "2", "y", "3", "width", "10", "height", "8", "rx", "2"),
			model.E("rect", "y", "3", "width", "10"),
			model.E("rect", "x", "1", "width", "20", "height", "8", "rx", "3", "ry", "2"),
			model.E("circle", "cx", "4", "r", "3"), model.E("circle", "cx", "4"), model.E("circle", "cy", "9", "r", "2"),
			model.E("ellipse", "rx", "4", "ry", "3", "cy", "2"), model.E("ellipse", "rx", "4"), model.E("ellipse", "cx", "1", "ry", "4", "rx", "1"),
			model.E("line", "x1", "4"), model.E("line", "y2", "4", "x2", "5"),
			model.E("polyline", "points", "1 2 3 4 5 6"), model.E("polyline"), model.E("polygon", "points", "7,8 9,1 3,3"), model.E("polygon"),
			model.E("polyline", "points", ""), model.E("polygon", "points", "1 2 3 4"),
			model.E("path", "d", "M1 2L3 4"), model.E("path"), model.E("path", "d", "m1 2a3 4 0 1 0 5 6z"), model.E("path", "d", ""),
			model.E("g"),
		}
		root := svgRoot()
		for i := 0; i < n; i++ {
			c := *menu[x.Choose(len(menu))]
			root.Add(&c)
		}
		x.conform(root, svg.StrictErrorMode)
	}
}

func init() {
	register(&Property{ID: "C04", Rule: "each execution is one shape (attribute presence, value and order) after one preceding element, or one sequence of shapes",
		Assumptions: []string{"rounded outlines are compared as closed curves (two-sided distance and enclosed area), not by start point or direction", "negative sizes are outside the property"},
		Drivers: []*Driver{
			{Name: "rect", Quick: -1, Thorough: -1, Run: runC04Rect, Note: "x,y,width,height,rx,ry presence and values x attribute rotations/reversals (thorough x 9 preceding elements)"},
			{Name: "ellipse", Quick: -1, Thorough: -1, Run: runC04Ellipse, Note: "circle and ellipse attribute grid x order x 9 preceding elements"},
			{Name: "line", Quick: -1, Thorough: -1, Run: runC04Line, Note: "line attribute grid x order x 9 preceding elements"},
			{Name: "poly", Quick: -1, Thorough: -1, Run: runC04Poly, Note: "polyline/polygon of 0..4 (thorough 5) points x separators x 9 preceding elements"},
			{Name: "seq3", Quick: -1, Thorough: -1, ThoroughOff: true, Run: runC04Seq(3), Note: "all sequences of 3 of 23 shapes"},
			{Name: "seq4", Quick: -1, Thorough: -1, QuickOff: true, Run: runC04Seq(4), Note: "all sequences of 4 of 23 shapes"},
		}})
}

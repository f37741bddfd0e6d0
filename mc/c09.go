package main

import (
	"fmt"

	"mc/model"

	svg "github.com/lafriks/go-svg"
)

// defNode is one element of a definitions section.
func (x *X) defNode(i int, leaf bool) *model.Node {
	var nd *model.Node
	if leaf {
		switch x.Dev(11) {
		case 0:
			nd = model.E("line", "x2", fmt.Sprint(i+2))
		case 1:
			nd = model.E("rect", "x", "1", "width", "5", "height", "6")
		case 2:
			nd = model.E("path", "d", "M1 2l3 4z m5 5h6")
		case 3:
			nd = model.E("g")
		case 4:
			nd = model.E("title").Add(model.T("not shown"))
		case 5:
			nd = model.E("unknown")
		case 6:
			nd = model.E("linearGradient").Add(model.E("stop", "stop-color", "red"))
		case 7:
			nd = model.E("mask").Set("id", fmt.Sprint("mm", i)).Add(model.E("line", "x1", "9"))
			return nd
		case 8:
			nd = model.E("polygon", "points", "1,2 3,4 5,-6")
		case 9:
			nd = model.E("defs").Add(model.E("line", "x1", "31"))
		case 10:
			nd = model.E("rect", "width", "0", "height", "6")
		}
	} else {
		switch x.Dev(4) {
		case 0:
			nd = model.E("g")
		case 1:
			nd = model.E("line", "y2", "33")
		case 2:
			nd = model.E("svg")
		case 3:
			nd = model.E("unknown")
		}
	}
	if k := x.Choose(3); k > 0 && nd.Name != "linearGradient" {
		nd.Set("id", []string{"a", "b"}[k-1])
	}
	switch x.Dev(5) {
	case 1:
		nd.Set("fill", "red")
	case 2:
		nd.Set("transform", "translate(3,4) rotate(30)")
	case 3:
		nd.Set("opacity", "0.5")
	case 4:
		nd.Set("mask", "url(#mk)")
	}
	return nd
}

func (x *X) useNode() *model.Node {
	nd := model.E("use")
	nd.Set(x.DevPick("href", "xlink:href"), x.Pick("#a", "#b"))
	switch x.Dev(6) {
	case 1:
		nd.Set("x", "5").Set("y", "-7")
	case 2:
		nd.Set("transform", "scale(2,3)").Set("x", "10%")
	case 3:
		nd.Set("style", "fill:blue;opacity:0.5;transform:rotate(90)")
	case 4:
		nd.Set("y", "1in").Set("mask", "url(#mu)").Set("stroke", "lime")
	case 5:
		nd.Add(model.E("title").Add(model.T("use title")))
	}
	return nd
}

// once makes sure that the ids a and b are used at most once; a repeated id is not a valid document.
func uniqueIDs(n *model.Node, seen map[string]bool) bool {
	if id, ok := n.Get("id"); ok {
		if seen[id] {
			return false
		}
		seen[id] = true
	}
	for _, k := range n.Kids {
		if !uniqueIDs(k, seen) {
			return false
		}
	}
	return true
}

func runC09Tree(n, nt int) func(x *X) {
	return func(x *X) {
		m := n
		if x.Thorough {
			m = nt
		}
		defs := model.E("defs").Add(x.forest(m, x.defNode)...)
		if !uniqueIDs(defs, map[string]bool{}) {
			x.Skip()
		}
		root := svgRoot()
		switch x.Dev(5) {
		case 0:
			root.Add(defs)
		case 1:
			root.Add(model.E("g", "fill", "lime", "transform", "scale(3)", "opacity", "0.25").Add(defs))
		case 2: // split into two sections
			d2 := model.E("defs")
			if len(defs.Kids) > 1 {
				d2.Kids = append(d2.Kids, defs.Kids[1:]...)
				defs.Kids = defs.Kids[:1]
			}
			root.Add(defs, model.E("line", "x2", "50"), d2)
		case 3:
			defs.Set("stroke", "navy").Set("transform", "translate(9 9)")
			root.Add(defs)
		case 4:
			root.Add(model.E("svg").Add(defs))
		}
		u := x.useNode()
		switch x.Dev(3) {
		case 0:
			root.Add(u)
		case 1:
			root.Add(model.E("g", "transform", "translate(1,2)", "fill", "navy").Add(u, model.E("line", "x1", "1")))
		case 2:
			root.Add(u, x.useNode())
		}
		root.Add(model.E("line", "y1", "40"))
		x.conform(root, svg.IgnoreErrorMode)
	}
}

// reference graphs: three definitions, each a list of shapes and uses
func runC09Graph(x *X) {
	n := 2
	if x.Thorough {
		n = 3
	}
	defs := model.E("defs")
	for i, id := range []string{"a", "b", "c"} {
		g := model.E("g", "id", id)
		if i == 1 {
			g.Set("transform", "translate(10,20)")
		}
		k := x.Choose(n + 1)
		for j := 0; j < k; j++ {
			switch c := x.Choose(4); c {
			case 0:
				g.Add(model.E("line", "x2", fmt.Sprint(i+1), "y2", fmt.Sprint(j)))
			default:
				u := model.E("use", "href", "#"+string(rune('a'+c-1)), "x", fmt.Sprint(i+1), "y", fmt.Sprint(10*j))
				g.Add(u)
			}
		}
		defs.Add(g)
	}
	if x.Bool() { // the definitions may come in the opposite order
		defs.Kids[0], defs.Kids[2] = defs.Kids[2], defs.Kids[0]
	}
	root := svgRoot(defs)
	root.Add(model.E("use", "href", x.Pick("#a", "#b", "#c"), "y", "100"))
	if x.Bool() {
		root.Add(model.E("use", "href", x.Pick("#a", "#b", "#c")))
	}
	root.Add(model.E("line", "x1", "77"))
	x.conform(root, svg.ErrorMode(2*x.Choose(2)))
}

// a definition that is itself a use, or directly a shape, chained
func runC09Chain(x *X) {
	n := 4
	defs := model.E("defs")
	for i := 0; i < n; i++ {
		id := fmt.Sprint("d", i)
		var nd *model.Node
		switch c := x.Choose(n + 2); {
		case c == 0:
			nd = model.E("rect", "width", "5", "height", "6", "fill", "#123")
		case c == 1:
			nd = model.E("line", "x2", "9", "transform", "rotate(10)")
		default:
			nd = model.E("use", "href", fmt.Sprint("#d", c-2), "x", "3", "y", "4")
		}
		nd.Set("id", id)
		if x.Dev(2) == 1 {
			nd.Set("opacity", "0.5")
		}
		defs.Add(nd)
	}
	root := svgRoot(defs)
	for k := 1 + x.Choose(2); k > 0; k-- {
		root.Add(model.E("use", "href", fmt.Sprint("#d", x.Choose(n)), "stroke", "red"))
	}
	root.Add(model.E("line", "x1", "77"))
	x.conform(root, svg.StrictErrorMode)
}

// attributes of the use element itself
func runC09Attrs(x *X) {
	u := model.E("use")
	x.opt(u, "href", "#a", "#zz", "a", "", "#", "url(#a)")
	x.opt(u, "x", "", "5", "-2.5", "10%", "1cm", "oops")
	x.opt(u, "y", "7", "20%", "-1pc", "")
	x.opt(u, "transform", "", "scale(2)", "rotate(30) translate(1)")
	x.opt(u, "fill", "", "red", "none")
	x.opt(u, "width", "", "30")
	x.reorder(u)
	root := svgRoot(model.E("defs").Add(model.E("rect", "id", "a", "x", "2", "width", "5", "height", "6"), model.E("g", "id", "zzz")))
	root.Add(model.E("g", "transform", "translate(8,8)").Add(u, model.E("circle", "r", "3")), model.E("line", "x1", "4"))
	x.conform(root, svg.ErrorMode(x.Choose(3)))
}

// every kind of definition, used several times among other content
func runC09Repeat(x *X) {
	shapes := []*model.Node{
		model.E("rect", "x", "3", "width", "5", "height", "6"), model.E("rect", "width", "50", "height", "60", "ry", "4"), model.E("circle", "r", "20", "cx", "3"),
		model.E("ellipse", "cy", "2", "rx", "20", "ry", "9"), model.E("line", "x2", "5"), model.E("polyline", "points", "1 2 3 4 9 9"),
		model.E("polygon", "points", "1 2 3 4 9 9"), model.E("path", "d", "m1 2a5 6 7 0 1 8 9q1 2 3 4t5 5c1 2 3 4 9 8zl5 5"),
		model.E("g").Add(model.E("line", "x2", "5"), model.E("g", "fill", "red").Add(model.E("line", "x2", "6")), model.E("line", "x2", "7")),
		model.E("g").Add(model.E("rect", "width", "5", "height", "6", "stroke", "lime"), model.E("title").Add(model.T("x")), model.E("desc").Add(model.T("x")), model.E("path", "d", "M0 0")),
	}
	d := shapes[x.Choose(len(shapes))]
	d.Set("id", "a")
	if x.Bool() {
		d.Set("transform", "translate(2 1) scale(2)")
	}
	defs := model.E("defs")
	switch x.Choose(3) {
	case 0:
		defs.Add(d)
	case 1:
		defs.Add(model.E("line", "x1", "41"), d, model.E("line", "x1", "42"))
	case 2:
		defs.Add(model.E("g", "fill", "lime", "id", "outer").Add(model.E("line", "x1", "41"), d, model.E("line", "x1", "42", "id", "b")))
	}
	root := svgRoot(defs)
	n := 3
	if x.Thorough {
		n = 4
	}
	for i := 0; i < n; i++ {
		switch x.Choose(5) {
		case 1:
			root.Add(model.E("use", "href", "#a", "x", fmt.Sprint(i), "y", "4"))
		case 2:
			root.Add(model.E("use", "href", "#a", "fill", "navy", "transform", "rotate(30)"))
		case 3:
			root.Add(model.E("line", "x1", "4"))
		case 4:
			root.Add(model.E("g", "transform", "translate(7,7)", "stroke-width", "5").Add(model.E("use", "href", "#a"), model.E("polygon", "points", "1,1 2,2 3,5")))
		}
	}
	root.Add(model.E("path", "d", "M5 5h4z"))
	x.conform(root, svg.StrictErrorMode)
}

func init() {
	register(&Property{ID: "C09", Rule: "each execution is one definitions section with one use history",
		Assumptions: []string{"ids are unique in a document", "titles and descriptions inside definitions are not collected", "unsupported elements are transparent: their children are processed"},
		Drivers: []*Driver{
			{Name: "tree2", Quick: 3, Thorough: 5, Run: runC09Tree(2, 2), Note: "definition forests of 2 nodes, ids a/b at every placement, <=2 (4) deviations in kinds, styles, placement, uses"},
			{Name: "tree3", Quick: 2, Thorough: 3, Run: runC09Tree(3, 3), Note: "definition forests of 3 nodes"},
			{Name: "tree4", Quick: 2, Thorough: 3, Run: runC09Tree(4, 4), Note: "definition forests of 4 nodes"},
			{Name: "tree5", Quick: 1, Thorough: 2, Run: runC09Tree(5, 5), Note: "definition forests of 5 nodes"},
			{Name: "tree6", Quick: 0, Thorough: 1, QuickOff: true, Run: runC09Tree(6, 6), Note: "definition forests of 6 nodes"},
			{Name: "graph", Quick: -1, Thorough: -1, Run: runC09Graph, Note: "all reference graphs of 3 definitions with <= 2 (3) items each, 1..2 uses, both definition orders"},
			{Name: "chain", Quick: 1, Thorough: 4, Run: runC09Chain, Note: "4 definitions, each a shape or a use of any of them"},
			{Name: "attrs", Quick: -1, Thorough: -1, Run: runC09Attrs, Note: "use attribute grid x order x error mode"},
			{Name: "repeat", Quick: -1, Thorough: -1, Run: runC09Repeat, Note: "10 definitions x placement x sequences of 3 (4) items"},
		}})
}

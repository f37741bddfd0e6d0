package main

import (
	"fmt"

	"mc/model"

	svg "github.com/lafriks/go-svg"
)

func runC11Refs(n, nt int) func(x *X) {
	return func(x *X) {
		m := n
		if x.Thorough {
			m = nt
		}
		root := svgRoot(model.E("mask", "id", "a").Add(model.E("line", "x2", "1")))
		root.Add(x.forest(m, func(i int, leaf bool) *model.Node {
			nd := model.E("g")
			if leaf {
				nd = model.E("line", "x2", fmt.Sprint(i))
			}
			switch x.Choose(3) {
			case 1:
				nd.Set("mask", fmt.Sprintf("url(#m%d)", i))
			case 2:
				nd.Set("style", fmt.Sprintf("mask:url(#n%d)", i))
			}
			if x.Dev(2) == 1 {
				nd.Set("mask", "none")
			}
			return nd
		})...)
		root.Add(model.E("line", "y2", "9"))
		x.conform(root, svg.StrictErrorMode)
	}
}

// chains of masked groups, with masked siblings before and after each level
func runC11Deep(x *X) {
	root := svgRoot()
	cur := root
	d := 6
	if x.Thorough {
		d = 8
	}
	for i := 0; i < d; i++ {
		g := model.E("g")
		if x.Bool() {
			g.Set("mask", fmt.Sprintf("url(#m%d)", i))
		}
		cur.Add(g)
		if x.Bool() {
			g.Add(model.E("line", "x2", "1", "mask", fmt.Sprintf("url(#b%d)", i)))
		}
		cur = g
	}
	var add func(n *model.Node, d int)
	add = func(n *model.Node, d int) {
		for _, k := range n.Kids {
			if k.Name == "g" {
				add(k, d+1)
			}
		}
		n.Add(model.E("line", "y1", "5", "mask", fmt.Sprintf("url(#s%d)", d)), model.E("line", "y1", "6", "mask", fmt.Sprintf("url(#t%d)", d)), model.E("line", "y1", "7"))
	}
	add(root, 0)
	x.conform(root, svg.StrictErrorMode)
}

func (x *X) maskItem(i int) *model.Node {
	switch x.Choose(12) {
	case 1:
		return model.E("rect", "width", "7", "height", "8", "fill", "white")
	case 2:
		return model.E("g", "transform", "translate(3,4)", "opacity", "0.5").Add(model.E("line", "x2", "9"), model.E("circle", "r", "5"))
	case 3:
		return model.E("use", "href", "#d", "x", "4")
	case 4:
		return model.E("line", "x2", "3", "mask", "url(#other)", "transform", "scale(2)")
	case 5:
		return model.E("title").Add(model.T("in mask"))
	case 6:
		return model.E("linearGradient", "id", fmt.Sprint("g", i)).Add(model.E("stop", "stop-color", "red"))
	case 7:
		return model.E("defs").Add(model.E("line", "x1", "66", "id", fmt.Sprint("dd", i)))
	case 8:
		return model.E("mask", "id", fmt.Sprint("in", i), "x", "3").Add(model.E("line", "x1", "67"), model.E("line", "x1", "68"))
	case 9:
		return model.E("unknown").Add(model.E("line", "x1", "69"))
	case 10:
		return model.E("g", "mask", "url(#q)").Add(model.E("mask", "id", fmt.Sprint("deep", i)).Add(model.E("line", "x1", "70", "mask", "url(#r)")), model.E("line", "x1", "71"))
	case 11:
		return model.E("rect", "width", "0", "height", "8")
	}
	return model.E("line", "x2", fmt.Sprint(20+i))
}

func (x *X) maskPlace(root, m *model.Node) {
	switch x.Choose(10) {
	case 0:
		root.Add(m)
	case 1:
		root.Add(model.E("defs").Add(m))
	case 2:
		root.Add(model.E("g", "transform", "translate(9,9) scale(3)", "fill", "olive", "opacity", "0.5", "mask", "url(#outer)").Add(m, model.E("line", "x1", "51")))
	case 3:
		root.Add(model.E("g", "transform", "scale(3)", "stroke", "red").Add(model.E("defs", "transform", "rotate(5)").Add(model.E("line", "id", "z"), m, model.E("line", "id", "y")), model.E("use", "href", "#y")))
	case 4:
		root.Add(model.E("defs").Add(model.E("g", "transform", "scale(3)", "id", "zz", "fill", "lime").Add(model.E("line", "x1", "52"), m, model.E("line", "x1", "53"))), model.E("use", "href", "#zz"))
	case 5:
		root.Add(model.E("svg").Add(m, model.E("line", "x1", "54")))
	case 6:
		root.Add(model.E("line", "x1", "55", "mask", "url(#m)"), m)
	case 7:
		root.Add(model.E("unknown", "transform", "scale(2)").Add(m))
	case 8:
		root.Add(model.E("defs").Add(model.E("defs").Add(m), model.E("line", "x1", "56", "id", "w")), model.E("use", "href", "#w"))
	case 9:
		root.Add(model.E("defs").Add(model.E("line", "x1", "57")), model.E("g").Add(model.E("g", "mask", "url(#m)").Add(model.E("line", "x1", "58"), m, model.E("line", "x1", "59"))))
	}
}

func runC11Content(x *X) {
	n := 4
	if x.Thorough {
		n = 5
	}
	m := model.E("mask", "id", "m")
	k := x.Choose(n)
	for i := 0; i < k; i++ {
		m.Add(x.maskItem(i))
	}
	root := svgRoot(model.E("defs").Add(model.E("rect", "id", "d", "width", "5", "height", "6", "fill", "teal")))
	x.maskPlace(root, m)
	root.Add(model.E("line", "x1", "60", "mask", "url(#m)"), model.E("line", "x1", "61"))
	x.conform(root, svg.IgnoreErrorMode)
}

func runC11Box(x *X) {
	m := model.E("mask", "id", "m")
	x.opt(m, "x", "", "3", "-10%", "1cm")
	x.opt(m, "y", "", "4", "20%", "2pt")
	x.opt(m, "width", "", "30", "50%", "3in")
	x.opt(m, "height", "", "40", "25%", "4pc")
	x.opt(m, "fill", "", "red")
	x.opt(m, "maskUnits", "", "userSpaceOnUse")
	x.reorder(m)
	m.Add(model.E("line", "x2", "3"))
	root := svgRoot()
	if x.Bool() {
		root = model.E("svg", "viewBox", "5 6 200 40")
	}
	if x.Bool() {
		root.Add(model.E("defs").Add(m))
	} else {
		root.Add(m)
	}
	if x.Bool() {
		root.Add(model.E("mask", "id", "n", "x", "77").Add(model.E("line", "x2", "4")))
	}
	root.Add(model.E("line", "x1", "61"))
	x.conform(root, svg.StrictErrorMode)
}

// sequences of masks, users and other content
func runC11Seq(x *X) {
	n := 5
	if x.Thorough {
		n = 6
	}
	root := svgRoot(model.E("defs").Add(model.E("g", "id", "d", "mask", "url(#dm)").Add(model.E("line", "x1", "1", "mask", "url(#dl)"), model.E("line", "x1", "2"))))
	for i := 0; i < n; i++ {
		id := fmt.Sprint("k", i)
		switch x.Choose(9) {
		case 0:
			root.Add(model.E("line", "x1", id[1:]))
		case 1:
			root.Add(model.E("mask", "id", id).Add(model.E("line", "x1", "1"+id[1:])))
		case 2:
			root.Add(model.E("line", "x1", "5", "mask", "url(#"+id+")"))
		case 3:
			root.Add(model.E("defs").Add(model.E("mask", "id", id, "width", "5").Add(model.E("line", "x1", "2"+id[1:]), model.E("line", "x1", "3"+id[1:]))))
		case 4:
			root.Add(model.E("use", "href", "#d", "mask", "url(#u"+id+")"))
		case 5:
			root.Add(model.E("g", "mask", "url(#"+id+")").Add(model.E("mask", "id", id).Add(model.E("use", "href", "#d")), model.E("use", "href", "#d")))
		case 6:
			root.Add(model.E("mask", "id", id, "x", "1"))
		case 7:
			root.Add(model.E("g", "mask", "none", "transform", "scale(2)").Add(model.E("line", "x1", "9", "mask", "url(#"+id+")"), model.E("line", "x1", "8")))
		case 8:
			root.Add(model.E("mask", "id", id).Add(model.E("mask", "id", "in"+id).Add(model.E("line", "x1", "7")), model.E("line", "x1", "6")))
		}
	}
	root.Add(model.E("line", "y1", "61"))
	x.conform(root, svg.StrictErrorMode)
}

func init() {
	register(&Property{ID: "C11", Rule: "each execution is one document with masks and mask references",
		Assumptions: []string{"mask ids are unique and present"},
		Drivers: []*Driver{
			{Name: "refs4", Quick: 1, Thorough: 2, Run: runC11Refs(4, 4), Note: "forests of 4 nodes with any mask reference per node, <=1 (2) of them none"},
			{Name: "refs5", Quick: 1, Thorough: 2, Run: runC11Refs(5, 5), Note: "forests of 5 nodes"},
			{Name: "refs6", Quick: 1, Thorough: 1, Run: runC11Refs(6, 6), Note: "forests of 6 nodes"},
			{Name: "refs7", Quick: 0, Thorough: 0, QuickOff: true, Run: runC11Refs(7, 7), Note: "forests of 7 nodes"},
			{Name: "deep", Quick: -1, Thorough: -1, Run: runC11Deep, Note: "chains of 6 (8) groups, masked at every subset of levels, with masked siblings at every subset of levels"},
			{Name: "content", Quick: -1, Thorough: -1, Run: runC11Content, Note: "mask content of <= 3 (4) items of 12 kinds at 10 placements"},
			{Name: "box", Quick: -1, Thorough: -1, Run: runC11Box, Note: "mask box grid"},
			{Name: "seq", Quick: -1, Thorough: -1, Run: runC11Seq, Note: "sequences of 5 (6) items of 9 kinds"},
		}})
}

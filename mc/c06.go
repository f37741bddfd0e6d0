package main

import (
	"fmt"

	"mc/model"

	svg "github.com/lafriks/go-svg"
)

type styleProp struct {
	name string
	vals []string
}

var styleProps = []styleProp{
	{"fill", []string{"red", "none", "#00f", "url(#lg)"}},
	{"stroke", []string{"lime", "rgb(1,2,3)", "none", "url(#lg)"}},
	{"fill-rule", []string{"evenodd", "nonzero"}},
	{"stroke-width", []string{"3", "0", "7.5", "10%", "1e-3"}},
	{"stroke-linecap", []string{"round", "square", "butt", "cubic", "quadratic"}},
	{"stroke-linejoin", []string{"round", "miter", "bevel", "miter-clip", "arc", "arc-clip"}},
	{"stroke-leadlinecap", []string{"round", "square", "butt", "cubic", "quadratic"}},
	{"stroke-linegap", []string{"flat", "round", "cubic", "quadratic"}},
	{"stroke-miterlimit", []string{"6", "2.5", "1"}},
	{"stroke-dasharray", []string{"4 2", "none", "1,2 ,3", "0 2", "5"}},
	{"stroke-dashoffset", []string{"3", "0", "-1.5"}},
	{"opacity", []string{"0.5", "0.25", "1.5", "-1", "0", "50%", "0.5%", "150 %"}},
	{"fill-opacity", []string{"0.5", "0.75", "7", "-0.5", "0", "1", "25%"}},
	{"stroke-opacity", []string{"0.5", "0.75", "7", "-0.5", "0", "1", "25%"}},
}

// forest builds all ordered forests of n nodes: each node's depth is at most one more than its predecessor's.
func (x *X) forest(n int, mk func(i int, leaf bool) *model.Node) []*model.Node {
	depth := make([]int, n)
	for i := 1; i < n; i++ {
		depth[i] = x.Choose(depth[i-1] + 2)
	}
	root := &model.Node{Name: "x"}
	stack := []*model.Node{root}
	for i := 0; i < n; i++ {
		leaf := i+1 == n || depth[i+1] <= depth[i]
		nd := mk(i, leaf)
		stack = stack[:depth[i]+1]
		stack[depth[i]].Add(nd)
		stack = append(stack, nd)
	}
	return root.Kids
}

// leafKind: what a leaf may be besides a shape
func (x *X) leafNode(i int) *model.Node {
	switch x.Dev(7) {
	case 1:
		return model.E("g")
	case 2:
		return model.E("title").Add(model.T("t"))
	case 3:
		return model.E("defs").Add(model.E("rect", "id", fmt.Sprint("d", i), "width", "1", "height", "1"))
	case 4:
		return model.E("unknown")
	case 5:
		return model.E("linearGradient", "id", fmt.Sprint("q", i)).Add(model.E("stop", "offset", "0", "stop-color", "blue", "opacity", "0.125"))
	case 6:
		return model.E("rect", "width", "3", "height", "4").Add(model.E("title").Add(model.T("in shape")))
	}
	return model.E("line", "x2", fmt.Sprint(i+1))
}

func (x *X) setting(n *model.Node, p styleProp, nv int) {
	if nv > len(p.vals) {
		nv = len(p.vals)
	}
	k := x.Choose(1 + 2*nv)
	if k == 0 {
		return
	}
	v := p.vals[(k-1)/2]
	if (k-1)%2 == 0 {
		n.Set(p.name, v)
	} else {
		n.Set("style", p.name+":"+v)
	}
}

func styleRoot() *model.Node {
	return svgRoot(model.E("linearGradient", "id", "lg", "x1", "0.25").Add(model.E("stop", "offset", "0.5", "stop-color", "navy"), model.E("stop", "offset", "1")))
}

func runC06Tree(nq, nt int) func(x *X) {
	return func(x *X) {
		p := styleProps[x.Choose(len(styleProps))]
		n := nq
		nv := 1
		if x.Thorough {
			n = nt
		}
		if n <= 3 {
			nv = 3
		}
		root := styleRoot()
		if n <= 3 {
			x.setting(root, p, nv)
		}
		kids := x.forest(n, func(i int, leaf bool) *model.Node {
			var nd *model.Node
			if leaf {
				nd = x.leafNode(i)
			} else {
				nd = model.E("g")
			}
			x.setting(nd, p, nv)
			return nd
		})
		root.Add(kids...)
		root.Add(model.E("line", "y2", "9"))
		x.conform(root, svg.IgnoreErrorMode)
	}
}

// two properties on a chain root > g > g > line, with siblings after each closed group
func runC06Pair(x *X) {
	a := x.Choose(len(styleProps))
	b := x.Choose(len(styleProps))
	if a >= b {
		x.Skip()
	}
	root := styleRoot()
	cur := root
	var chain []*model.Node
	for i := 0; i < 3; i++ {
		nd := model.E("g")
		if i == 2 {
			nd = model.E("line", "x2", "4")
		}
		if x.Thorough {
			x.setting(nd, styleProps[a], 1)
			x.setting(nd, styleProps[b], 1)
		} else {
			switch x.Choose(5) {
			case 1:
				nd.Set(styleProps[a].name, styleProps[a].vals[0])
			case 2:
				nd.Set(styleProps[b].name, styleProps[b].vals[i%2])
			case 3:
				nd.Set(styleProps[a].name, styleProps[a].vals[1]).Set("style", styleProps[b].name+": "+styleProps[b].vals[0])
			case 4:
				nd.Set("style", styleProps[b].name+":"+styleProps[b].vals[1]+";"+styleProps[a].name+":"+styleProps[a].vals[0])
			}
		}
		cur.Add(nd)
		chain = append(chain, nd)
		cur = nd
	}
	chain[1].Add(model.E("line", "x1", "1"))
	chain[0].Add(model.E("line", "x1", "2"))
	root.Add(model.E("line", "x1", "3"))
	if len(styleOverlap(chain)) > 0 {
		x.Skip()
	}
	x.conform(root, svg.StrictErrorMode)
}

// styleOverlap is a guard: two style attributes on one element are not well-formed XML.
func styleOverlap(ns []*model.Node) (out []string) {
	for _, n := range ns {
		c := 0
		for _, a := range n.Attrs {
			if a[0] == "style" {
				c++
			}
		}
		if c > 1 {
			out = append(out, n.Name)
		}
	}
	return
}

// one element: presentation attribute and style declarations of the same property, in every order
func runC06Same(x *X) {
	p := styleProps[x.Choose(len(styleProps))]
	q := styleProps[x.Choose(len(styleProps))]
	nd := model.E("line", "x2", "4")
	parent := model.E("g")
	if x.Bool() {
		parent.Set(p.name, p.vals[0])
	}
	var at [][2]string
	if k := x.Choose(len(p.vals) + 1); k > 0 {
		at = append(at, [2]string{p.name, p.vals[k-1]})
	}
	st := ""
	if k := x.Choose(len(p.vals) + 1); k > 0 {
		st = x.Pick("", " ", ";") + p.name + x.Pick(":", " : ") + p.vals[k-1] + x.Pick("", ";", " ; ")
	}
	if p.name != q.name && x.Bool() {
		if st != "" {
			st += ";"
		}
		st += q.name + ":" + q.vals[0]
	}
	if st != "" {
		at = append(at, [2]string{"style", st})
	}
	if p.name != q.name && x.Bool() {
		at = append(at, [2]string{q.name, q.vals[1]})
	}
	nd.Attrs = append(nd.Attrs, at...)
	x.reorder(nd)
	parent.Add(nd, model.E("line", "y2", "1"))
	x.conform(styleRoot().Add(parent), svg.StrictErrorMode)
}

// every value of every property on a group against every value of every property on its child
func runC06Values(x *X) {
	p, q := styleProps[x.Choose(len(styleProps))], styleProps[x.Choose(len(styleProps))]
	pv, qv := p.vals[x.Choose(len(p.vals))], q.vals[x.Choose(len(q.vals))]
	root := styleRoot()
	g, nd := model.E("g"), model.E("line", "x2", "4")
	if x.Bool() {
		// something to be lost or kept
		root.Set("stroke", "#010203").Set("fill", "#040506").Set("stroke-width", "5").Set("stroke-dasharray", "7 8").Set("stroke-dashoffset", "2").Set("stroke-linecap", "round")
	}
	set := func(n *model.Node, k, v string, decl bool) {
		if decl {
			n.Set("style", k+":"+v)
		} else {
			n.Set(k, v)
		}
	}
	set(g, p.name, pv, x.Bool())
	set(nd, q.name, qv, x.Bool())
	g.Add(nd, model.E("line", "x1", "1"))
	root.Add(g, model.E("line", "x1", "2"))
	x.conform(root, svg.StrictErrorMode)
}

// deep chains: one property set at every subset of levels
func runC06Deep(x *X) {
	p := styleProps[x.Choose(len(styleProps))]
	d := 7
	root := styleRoot()
	cur := root
	for i := 0; i < d; i++ {
		g := model.E("g")
		switch x.Choose(3) {
		case 1:
			g.Set(p.name, p.vals[i%2])
		case 2:
			g.Set("style", p.name+":"+p.vals[(i+1)%2])
		}
		cur.Add(g)
		g.Add(model.E("line", "x2", fmt.Sprint(i)))
		cur = g
	}
	// unwind with a shape after every closed level
	var add func(n *model.Node)
	add = func(n *model.Node) {
		for _, k := range n.Kids {
			if k.Name == "g" {
				add(k)
			}
		}
		n.Add(model.E("line", "y1", "5"))
	}
	add(root)
	x.conform(root, svg.StrictErrorMode)
}

func init() {
	register(&Property{ID: "C06", Rule: "each execution is one document tree with one assignment of style settings to its nodes",
		Assumptions: []string{"fill-opacity, stroke-opacity and opacity multiply along the ancestors, as the library documents by construction", "the default style is the documented one (black fill, no stroke, width 2, butt, bevel, miter limit 4)"},
		Drivers: []*Driver{
			{Name: "tree2", Quick: 1, Thorough: 2, Run: runC06Tree(2, 2), Note: "root + forests of 2 nodes, 14 properties, up to 3 values as attribute or declaration per node; <=1 (2) non-shape leaves of 6 kinds"},
			{Name: "tree3", Quick: 1, Thorough: 2, Run: runC06Tree(3, 3), Note: "root + forests of 3 nodes"},
			{Name: "tree4", Quick: 1, Thorough: 2, Run: runC06Tree(4, 4), Note: "forests of 4 nodes, one value per property"},
			{Name: "tree5", Quick: 0, Thorough: 2, Run: runC06Tree(5, 5), Note: "forests of 5 nodes, one value per property"},
			{Name: "tree6", Quick: 0, Thorough: 1, QuickOff: true, Run: runC06Tree(6, 6), Note: "forests of 6 nodes, one value per property"},
			{Name: "pair", Quick: -1, Thorough: -1, Run: runC06Pair, Note: "91 property pairs on chains of depth 3 with shapes after each closed group"},
			{Name: "same", Quick: -1, Thorough: -1, Run: runC06Same, Note: "attribute against style declaration of the same property x another property x order x spelling"},
			{Name: "values", Quick: -1, Thorough: -1, Run: runC06Values, Note: "every value of every property on a group x every value of every property on its child, under plain and styled roots"},
			{Name: "deep", Quick: -1, Thorough: -1, Run: runC06Deep, Note: "chains of depth 7 with a setting at every subset of levels"},
		}})
}

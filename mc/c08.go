package main

import (
	"fmt"
	"strings"

	"mc/model"

	svg "github.com/lafriks/go-svg"
)

var transformFns = []string{
	"translate(3,4)", "scale(2,-1)", "rotate(30)", "skewX(30)", "matrix(1 2 -3 4 5 6)", "rotate(90,5,6)", "skewY(-20)",
	"translate(-7.5)", "scale(0.5)", "rotate(-45 2 -3)", "matrix(0,1,-1,0,2,0)", "scale(-1,3)", "translate(0,9)",
}

// lists of functions spread over the levels root > g > g > shape
func runC08List(x *X) {
	n := 4
	fns := transformFns
	if x.Thorough {
		n = 5
	}
	l := 1 + x.Choose(n)
	if l == n {
		fns = fns[:7]
	}
	var levels [3][]string
	lv := 0
	for i := 0; i < l; i++ {
		lv += x.Choose(len(levels) - lv)
		levels[lv] = append(levels[lv], fns[x.Choose(len(fns))])
	}
	root := svgRoot()
	a := model.E("g")
	b := model.E("g")
	sh := model.E("path", "d", "M1 2L30 4 5 20z")
	root.Add(a, model.E("line", "x2", "4"))
	a.Add(model.E("line", "x2", "5", "transform", "translate(50 60)"), b, model.E("line", "x2", "6"))
	b.Add(sh)
	sty := x.Bool()
	for i, nd := range []*model.Node{a, b, sh} {
		if len(levels[i]) == 0 {
			continue
		}
		t := strings.Join(levels[i], " ")
		if sty {
			nd.Set("style", "transform:"+t)
		} else {
			nd.Set("transform", t)
		}
	}
	x.conform(root, svg.StrictErrorMode)
}

func runC08Tree(n, nt int) func(x *X) {
	return func(x *X) {
		m := n
		if x.Thorough {
			m = nt
		}
		fns := []string{"", "translate(3,4)", "rotate(30)", "scale(2,-1) translate(1 2)"}
		root := svgRoot()
		if t := fns[x.Choose(2)]; t != "" {
			root.Set("transform", t)
		}
		root.Add(x.forest(m, func(i int, leaf bool) *model.Node {
			nd := model.E("g")
			if leaf && x.Dev(2) == 0 {
				nd = model.E("rect", "x", fmt.Sprint(i), "width", "7", "height", "9")
			}
			if t := fns[x.Choose(len(fns))]; t != "" {
				nd.Set("transform", t)
			}
			return nd
		})...)
		root.Add(model.E("line", "y2", "9"))
		x.conform(root, svg.StrictErrorMode)
	}
}

// each element kind with a transform, between siblings
func runC08Kinds(x *X) {
	t := transformFns[x.Choose(len(transformFns))]
	u := transformFns[x.Choose(len(transformFns))]
	nd := []*model.Node{
		model.E("rect", "width", "5", "height", "6"), model.E("rect", "width", "50", "height", "60", "rx", "4"), model.E("circle", "r", "20", "cx", "3"),
		model.E("ellipse", "rx", "20", "ry", "9"), model.E("line", "x2", "5"), model.E("polyline", "points", "1 2 3 4 9 9"),
		model.E("polygon", "points", "1 2 3 4 9 9"), model.E("path", "d", "M1 2a5 6 7 0 1 8 9q1 2 3 4c1 2 3 4 9 8"), model.E("use", "href", "#d", "x", "4"),
		model.E("svg").Add(model.E("line", "x2", "5")), model.E("unknown").Add(model.E("line", "x2", "5")), model.E("g").Add(model.E("line", "x2", "5")),
	}[x.Choose(12)]
	nd.Set("transform", t)
	g := model.E("g")
	if x.Bool() {
		g.Set("transform", u)
	}
	root := svgRoot(model.E("defs").Add(model.E("rect", "id", "d", "width", "5", "height", "6", "transform", u)),
		g.Add(model.E("line", "x1", "3", "transform", u), nd, model.E("line", "x1", "7")), model.E("line", "x1", "8"))
	x.conform(root, svg.IgnoreErrorMode)
}

// all spellings of lists of two functions
func runC08Spell(x *X) {
	fns := []struct {
		n string
		a []string
	}{{"translate", []string{"3", "-4"}}, {"scale", []string{"2", ".5"}}, {"rotate", []string{"30", "5", "-6"}}, {"skewX", []string{"20"}},
		{"matrix", []string{"1", "2", "-3", ".4", "5e0", "6"}}, {"translate", []string{"1e1"}}, {"skewY", []string{"-20"}}}
	one := func() string {
		f := fns[x.Choose(len(fns))]
		n := f.n
		n += x.Pick("", " ", "\n")
		l := x.Pick("(", "( ", "(\t")
		r := x.Pick(")", " )")
		k := x.Choose(4)
		s := ""
		for i, a := range f.a {
			if i > 0 {
				switch k {
				case 0:
					s += ","
				case 1:
					s += " "
				case 2:
					s += " ,\n"
				case 3: // nothing where the grammar allows it
					if a[0] != '-' && !(a[0] == '.' && strings.ContainsAny(f.a[i-1], ".e")) {
						s += " "
					}
				}
			}
			s += a
		}
		return n + l + s + r
	}
	pad := x.Pick("", " ", "\n")
	s := pad + one() + x.Pick(" ", ",", "", " , ", "\t\n", ",  ") + one() + pad
	nd := model.E("line", "x1", "3", "y2", "5", "transform", s)
	x.conform(svgRoot(nd), svg.StrictErrorMode)
}

// argument counts: the allowed ones are read, the others are errors
func runC08Args(x *X) {
	name := x.Pick("translate", "scale", "rotate", "skewX", "skewY", "matrix", "foo", "")
	n := x.Choose(9)
	var a []string
	for i := 0; i < n; i++ {
		a = append(a, fmt.Sprint(2+i*i%7))
	}
	s := name + "(" + strings.Join(a, x.Pick(",", " ")) + ")"
	switch x.Choose(3) {
	case 1:
		s = "rotate(20) " + s
	case 2:
		s += " translate(1,2)"
	}
	x.conform(svgRoot(model.E("line", "x2", "3", "transform", s)), svg.ErrorMode(x.Choose(3)))
}

// angles, factors and offsets over a wide range
func runC08Numbers(x *X) {
	angles := []string{}
	for a := -720; a <= 720; a += 15 {
		angles = append(angles, fmt.Sprint(a))
	}
	angles = append(angles, "0.5", "-0.001", "1e2", "89", "91", "179.5", "181", "-91", "269", "271", "359.9", "1e3", "-12345")
	nums := []string{"0", "1", "-1", "0.001", "-0.5", "100", "-250", "3e2", "1.5", "7"}
	t := ""
	switch k := x.Choose(8); k {
	case 0, 1, 2:
		a := angles[x.Choose(len(angles))]
		if k > 0 {
			var n int
			if _, err := fmt.Sscanf(a, "%d", &n); err == nil && n%180 != 0 && n%90 == 0 {
				x.Skip() // no finite value
			}
		}
		t = []string{"rotate", "skewX", "skewY"}[k] + "(" + a + ")"
	case 3:
		t = "rotate(" + angles[x.Choose(len(angles))] + "," + nums[x.Choose(len(nums))] + " " + nums[x.Choose(len(nums))] + ")"
	case 4:
		t = "translate(" + nums[x.Choose(len(nums))] + "," + nums[x.Choose(len(nums))] + ")"
	case 5:
		t = "scale(" + nums[x.Choose(len(nums))] + "," + nums[x.Choose(len(nums))] + ")"
	case 6:
		t = x.Pick("translate", "scale") + "(" + nums[x.Choose(len(nums))] + ")"
	case 7:
		t = "matrix("
		for i := 0; i < 6; i++ {
			t += nums[x.Dev(len(nums))] + " "
		}
		t += ")"
	}
	nd := model.E("path", "d", "M1 2L30 4 5 20z")
	root := svgRoot()
	switch x.Choose(3) {
	case 0:
		nd.Set("transform", t)
		root.Add(nd)
	case 1:
		nd.Set("transform", "translate(3,-4) "+t)
		root.Add(nd)
	case 2:
		nd.Set("transform", "matrix(1 2 -3 4 5 6)")
		root.Add(model.E("g", "transform", t).Add(nd))
	}
	x.conform(root, svg.StrictErrorMode)
}

func runC08Deep(x *X) {
	root := svgRoot()
	cur := root
	fns := []string{"", "translate(1,-2)", "rotate(90)", "scale(1.5,.5)"}
	for i := 0; i < 8; i++ {
		g := model.E("g")
		if t := fns[x.Choose(len(fns))]; t != "" {
			g.Set("transform", t)
		}
		cur.Add(g)
		g.Add(model.E("line", "x2", "9"))
		cur = g
	}
	x.conform(root, svg.StrictErrorMode)
}

func init() {
	register(&Property{ID: "C08", Rule: "each execution is one document with one assignment of transform lists to its elements",
		Drivers: []*Driver{
			{Name: "list", Quick: -1, Thorough: -1, Run: runC08List, Note: "lists of <= 4 (5) functions of 13 (7 at full length) spread over 3 nesting levels, with transformed siblings"},
			{Name: "tree", Quick: 1, Thorough: 2, Run: runC08Tree(5, 6), Note: "forests of 5 (6) nodes with 4 transforms each"},
			{Name: "kinds", Quick: -1, Thorough: -1, Run: runC08Kinds, Note: "12 element kinds x 13 x 13 transforms"},
			{Name: "spell", Quick: -1, Thorough: -1, Run: runC08Spell, Note: "spellings of all pairs of 7 functions"},
			{Name: "args", Quick: -1, Thorough: -1, Run: runC08Args, Note: "functions x 0..8 arguments"},
			{Name: "numbers", Quick: 3, Thorough: 6, Run: runC08Numbers, Note: "97 multiples of 15 degrees in +-720 and 13 other angles, 10 numbers in every other argument (matrix: <= 3 (6) arguments other than 0), 3 contexts"},
			{Name: "deep", Quick: -1, Thorough: -1, Run: runC08Deep, Note: "chains of 8 groups with 4 transforms each"},
		}})
}

package main

import (
	"fmt"
	"sort"
	"strings"

	"mc/model"

	svg "github.com/lafriks/go-svg"
)

var colourNames = func() (l []string) {
	for n := range model.Names {
		l = append(l, n)
	}
	sort.Strings(l)
	return
}()

// colourDoc puts a colour text at one of the places a colour can have.
func (x *X) colourDoc(v string, place int) *model.Node {
	grad := func(st *model.Node) *model.Node {
		return svgRoot(model.E("defs").Add(model.E("linearGradient", "id", "g").Add(st, model.E("stop", "offset", "1", "stop-color", "#010203"))),
			model.E("rect", "width", "5", "height", "6", "fill", "url(#g)"))
	}
	switch place {
	case 1:
		return svgRoot(model.E("g", "stroke", "teal").Add(model.E("line", "x2", "4", "stroke", v)))
	case 2:
		return svgRoot(model.E("g", "style", "stroke:"+v).Add(model.E("line", "x2", "4")))
	case 3:
		return svgRoot(model.E("line", "x2", "4", "style", "stroke-width:3; fill : "+v+" ;"))
	case 4:
		return grad(model.E("stop", "offset", "0.5", "stop-color", v))
	case 5:
		return grad(model.E("stop", "offset", "0.5", "stop-color", "blue", "style", "stop-opacity:.5; stop-color: "+v))
	case 6: // a later stop
		return svgRoot(model.E("defs").Add(model.E("radialGradient", "id", "g").Add(model.E("stop", "stop-color", "#010203"), model.E("stop", "offset", "1", "stop-color", v))),
			model.E("rect", "width", "5", "height", "6", "fill", "url(#g)"))
	case 7:
		return svgRoot(model.E("defs").Add(model.E("linearGradient", "id", "g").Add(model.E("stop", "stop-color", "red"), model.E("stop", "offset", "0.5", "style", "stop-color:"+v), model.E("stop", "offset", "1", "stop-color", "#010203"))),
			model.E("rect", "width", "5", "height", "6", "stroke", "url(#g)"))
	}
	return svgRoot(model.E("line", "x2", "4", "fill", v), model.E("line", "x2", "5"))
}

func (x *X) colour(v string, places int) {
	p := x.Choose(places)
	if p >= 4 && (strings.EqualFold(v, "none") || v != strings.TrimSpace(v) || v == "") {
		x.Skip() // not defined for stops
	}
	x.conform(x.colourDoc(v, p), svg.ErrorMode(x.Choose(3)))
}

func runC07Names(x *X) {
	n := append([]string{"none"}, colourNames...)[x.Choose(len(colourNames)+1)]
	switch x.Choose(4) {
	case 1:
		n = strings.ToUpper(n)
	case 2:
		n = strings.ToUpper(n[:1]) + n[1:]
	case 3:
		b := []byte(n)
		for i := range b {
			if i%2 == 1 {
				b[i] -= 32
			}
		}
		n = string(b)
	}
	x.colour(n, 8)
}

// names with one letter removed, doubled or changed
func runC07NearNames(x *X) {
	n := colourNames[x.Choose(len(colourNames))]
	i := x.Choose(len(n))
	switch x.Choose(3) {
	case 0:
		n = n[:i] + n[i+1:]
	case 1:
		n = n[:i] + n[i:i+1] + n[i:]
	case 2:
		n = n[:i] + "z" + n[i+1:]
	}
	x.colour(n, 2)
}

func runC07Hex3(x *X) {
	d := "0123456789abcdef"
	if x.Bool() {
		d = strings.ToUpper(d)
	}
	x.colour("#"+string(d[x.Choose(16)])+string(d[x.Choose(16)])+string(d[x.Choose(16)]), 6)
}

func runC07Hex6(x *X) {
	ch := x.Choose(3)
	v := x.Choose(256)
	o := []int{0, 255, 0x5c}
	if x.Thorough {
		o = []int{0, 255, 0x5c, 1, 0x10, 0x80, 0x7f, 0xa9}
	}
	c := [3]int{o[x.Choose(len(o))], o[x.Choose(len(o))], o[x.Choose(len(o))]}
	c[ch] = v
	f := "#%02x%02X%02x"
	if x.Bool() {
		f = "#%02X%02x%02X"
	}
	x.colour(fmt.Sprintf(f, c[0], c[1], c[2]), 6)
}

func runC07RGB(x *X) {
	vals := []string{"0", "255", "128", "1", "-1", "256", "1000", "-300", "0%", "100%", "50%", "1%", "99%", "-10%", "120%", "101%", "+7", "007"}
	var c [3]string
	for i := range c {
		c[i] = vals[x.Choose(len(vals))]
	}
	sep := x.Pick(",", ", ", " ,\t")
	pad := ""
	if x.Bool() {
		pad = " "
	}
	x.colour("rgb("+pad+c[0]+sep+c[1]+sep+c[2]+pad+")", 8)
}

func runC07Percent(x *X) {
	n := x.Choose(301) - 100
	u := x.Pick("", "%", " %")
	c := [3]string{"3", "40%", "255"}
	c[x.Choose(3)] = fmt.Sprint(n) + u
	x.colour("rgb("+strings.Join(c[:], ",")+")", 8)
}

func runC07Text(n, nt int, pre string, alpha []string) func(x *X) {
	return func(x *X) {
		m := n
		if x.Thorough {
			m = nt
		}
		l := x.Choose(m + 1)
		s := pre
		for i := 0; i < l; i++ {
			s += alpha[x.Choose(len(alpha))]
		}
		p := x.Choose(2)
		if p == 1 {
			p = 2 + 2*x.Choose(2)
		}
		if p == 4 && (s != strings.TrimSpace(s) || s == "") {
			x.Skip()
		}
		x.conform(x.colourDoc(s, p), svg.IgnoreErrorMode)
	}
}

func init() {
	register(&Property{ID: "C07", Rule: "each execution is one colour text at one place of a document",
		Assumptions: []string{"a percentage p denotes floor(255 p / 100)", "texts starting with url are references, not colours", "the keywords currentColor, transparent and inherit are not part of the supported subset"},
		Drivers: []*Driver{
			{Name: "names", Quick: -1, Thorough: -1, Run: runC07Names, Note: "all 147 names and none x 4 letter cases x 8 places x 3 error modes"},
			{Name: "near", Quick: -1, Thorough: -1, Run: runC07NearNames, Note: "every name with each letter removed, doubled or replaced"},
			{Name: "hex3", Quick: -1, Thorough: -1, Run: runC07Hex3, Note: "all 4096 #rgb in both cases"},
			{Name: "hex6", Quick: -1, Thorough: -1, Run: runC07Hex6, Note: "every value of each channel against 3 (8) values of the others"},
			{Name: "rgb", Quick: -1, Thorough: -1, Run: runC07RGB, Note: "18 component texts ^ 3 x separators x places"},
			{Name: "percent", Quick: -1, Thorough: -1, Run: runC07Percent, Note: "components -100..200 as number and percentage"},
			{Name: "text", Quick: -1, Thorough: -1, Run: runC07Text(4, 5, "", []string{"#", "r", "g", "b", "(", ")", ",", "1", "%", " ", "f", "-", "é"}), Note: "all texts of <= 4 (5) symbols of 13"},
			{Name: "rgbtext", Quick: -1, Thorough: -1, Run: runC07Text(5, 7, "rgb(", []string{"1", "255", "%", ",", " ", ")", "x", ".5"}), Note: "rgb( followed by all sequences of <= 5 (7) tokens of 8"},
			{Name: "hextext", Quick: -1, Thorough: -1, Run: runC07Text(8, 9, "#", []string{"a", "1", "g"}), Note: "# followed by all texts of <= 8 (9) symbols of 3"},
		}})
}

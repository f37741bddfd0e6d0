package main

import (
	"fmt"
	"math"
	"strings"

	"mc/model"

	"github.com/fogleman/gg"
	svg "github.com/lafriks/go-svg"
	"golang.org/x/image/math/fixed"
)

// long lists of stops with regular offsets and colours
func runC10Many(x *X) {
	n := x.Choose(28)
	if n > 24 {
		n = []int{33, 65, 130}[n-25]
	}
	g := model.E(x.Pick("linearGradient", "radialGradient"), "id", "a")
	off, col, op := x.Choose(6), x.Choose(4), x.Choose(3)
	for i := 0; i < n; i++ {
		st := model.E("stop")
		switch off {
		case 0:
			st.Set("offset", ".5")
		case 1:
			st.Set("offset", num(float64(i)/128))
		case 2:
			st.Set("offset", num(1-float64(i)/128)+"")
		case 3:
			st.Set("offset", fmt.Sprint(i%2))
		case 4:
			st.Set("offset", fmt.Sprintf("%d%%", i/2*2))
		}
		switch col {
		case 0:
			st.Set("stop-color", "red")
		case 1:
			st.Set("stop-color", fmt.Sprintf("#%02x%02x11", i, 255-i))
		case 2:
			if i%3 == 1 {
				st.Set("stop-color", "blue")
			}
		}
		if op == 1 || op == 2 && i%2 == 0 {
			st.Set("stop-opacity", num(float64(i%5)/4))
		}
		g.Add(st)
	}
	x.conform(svgRoot(g, model.E("g", "fill", "teal", "stroke", "navy").Add(model.E("line", "x2", "1", "fill", "url(#a)"), model.E("line", "x2", "1", "stroke", "url(#a)"))), svg.StrictErrorMode)
}

// white space around the values of gradient and stop attributes
func runC10Blanks(x *X) {
	places := []struct{ el, attr, val string }{
		{"stop", "offset", "50%"}, {"stop", "offset", ".25"}, {"stop", "stop-opacity", ".5"}, {"stop", "stop-opacity", "50%"}, {"stop", "style", "stop-opacity:.5"}, {"stop", "style", "stop-color:red"},
		{"linearGradient", "x1", "20%"}, {"linearGradient", "y1", ".2"}, {"linearGradient", "x2", "30%"}, {"linearGradient", "y2", ".3"}, {"radialGradient", "cx", "20%"}, {"radialGradient", "cy", ".2"}, {"radialGradient", "r", "30%"}, {"radialGradient", "fx", "20%"}, {"radialGradient", "fy", ".2"}, {"radialGradient", "fr", "5%"},
		{"linearGradient", "gradientUnits", "userSpaceOnUse"}, {"radialGradient", "gradientUnits", "userSpaceOnUse"}, {"linearGradient", "spreadMethod", "reflect"}, {"radialGradient", "spreadMethod", "repeat"}, {"linearGradient", "gradientTransform", "rotate(30)"}, {"radialGradient", "gradientTransform", "scale(2)"},
	}
	p := places[x.Choose(len(places))]
	blanks := []string{"", " ", "  ", "\t", "\n", " \n\t", "\r\n "}
	a, b := blanks[x.Choose(len(blanks))], blanks[x.Choose(len(blanks))]
	v := a + p.val + b
	g := model.E("linearGradient", "id", "a")
	if p.el == "radialGradient" || p.el == "stop" && x.Bool() {
		g.Name = "radialGradient"
	}
	st := model.E("stop")
	if p.el == "stop" {
		st.Set(p.attr, v)
	} else {
		g.Set(p.attr, v)
	}
	if p.attr != "gradientUnits" && x.Bool() {
		g.Set("gradientUnits", "userSpaceOnUse")
	}
	g.Add(st, model.E("stop", "offset", "1", "stop-color", "blue"))
	x.conform(svgRoot(g, model.E("line", "x2", "1", "fill", "url(#a)")), svg.StrictErrorMode)
}

// shapes of every visibility in masks and groups
func runVisible(n, nt int, holder string) func(x *X) {
	return func(x *X) {
		m := n
		if x.Thorough {
			m = nt
		}
		h := model.E(holder, "id", "m")
		k := 1 + x.Choose(m)
		for i := 0; i < k; i++ {
			s := model.E("line", "x2", fmt.Sprint(i+1))
			switch x.Choose(6) {
			case 1:
				s.Set("fill", "none")
			case 2:
				s.Set("fill", "none").Set("stroke", "red")
			case 3:
				s.Set("opacity", "0")
			case 4:
				s.Set("stroke", "blue").Set("stroke-width", "0")
			case 5:
				s = model.E("rect", "width", "0", "height", "3", "fill", "red")
			}
			h.Add(s)
		}
		root := svgRoot()
		switch x.Choose(3) {
		case 0:
			root.Add(h, model.E("line", "x2", "9", "mask", "url(#m)"))
		case 1:
			root.Add(model.E("defs").Add(h), model.E("line", "x2", "9", "mask", "url(#m)"))
			if holder != "mask" {
				root.Add(model.E("use", "href", "#m"))
			}
		case 2:
			root.Add(model.E("g", "fill", "none").Add(h), model.E("line", "x2", "9"))
		}
		x.conform(root, svg.StrictErrorMode)
	}
}

// every number as width and height of the root element
func runC12Dims(x *X) {
	root := model.E("svg")
	if x.Bool() {
		root.Set("viewBox", "1 2 30 40")
	}
	v := x.sweep(0, far) + x.Pick("", "px", "mm", " ", "in")
	switch x.Choose(3) {
	case 0:
		root.Set("width", v)
	case 1:
		root.Set("height", v)
	case 2:
		root.Set("width", v).Set("height", v)
	}
	root.Add(model.E("line", "x2", "10%"))
	x.conform(root, svg.StrictErrorMode)
}

var extremes = []string{"0", "1e-300", "1e-30", "1e-12", "1e-3", ".5", "1e3", "1e6", "1e9", "1e12", "1e30", "1e300", "-1e-3", "-1e9"}

// two extreme numbers at any two places of an element
func runC14Extreme(x *X) {
	templates := []string{
		`<path d="M3 4A$ $ $ 0 1 $ $" stroke="red"/>`, `<path d="M$ $a5 4 20 1 0 $ $" stroke="red"/>`, `<path d="M3 4a$ $ 30 1 1 $ $ $ $ 30 0 0 1 1" stroke="red"/>`,
		`<ellipse cx="$" cy="$" rx="$" ry="$" stroke="red"/>`, `<rect x="$" y="$" width="$" height="$" rx="$" ry="$" stroke="red"/>`, `<circle cx="$" cy="$" r="$"/>`,
		`<path d="M$ $Q$ $ $ $T$ $" stroke="red"/>`, `<path d="M$ $c$ $ $ $ $ $s$ $ 5 6" stroke="red"/>`, `<polygon points="$ $ $ $ 5 6" stroke="red"/>`,
		`<line x1="$" y1="$" x2="$" y2="$" stroke="red" stroke-width="$" stroke-dasharray="$ $" stroke-dashoffset="$" stroke-miterlimit="$"/>`,
		`<line x2="9" stroke="red" opacity="$" transform="matrix($ $ $ $ $ $)"/>`, `<line x2="9" stroke="red" transform="rotate($ $ $) scale($ $) translate($ $)"/>`, `<line x2="9" stroke="red" transform="skewX($) skewY($)"/>`,
		`<linearGradient id="l" x1="$" y1="$" x2="$" y2="$" gradientUnits="userSpaceOnUse"><stop offset="$" stop-color="red"/><stop offset="$" stop-opacity="$"/></linearGradient><rect width="9" height="8" fill="url(#l)" stroke="url(#l)"/>`,
		`<radialGradient id="l" cx="$" cy="$" r="$" fx="$" fy="$" fr="$" spreadMethod="reflect"><stop offset="$" stop-color="red"/><stop offset="1"/></radialGradient><rect width="9" height="8" fill="url(#l)" stroke="url(#l)"/>`,
		`<mask id="m" x="$" y="$" width="$" height="$"><rect width="$" height="$" fill="white"/></mask><rect width="9" height="8" mask="url(#m)" transform="scale($)"/>`,
	}
	t := templates[x.Choose(len(templates))]
	n := strings.Count(t, "$")
	i := x.Choose(n)
	j := x.Choose(n)
	if j < i {
		x.Skip()
	}
	a := extremes[x.Choose(len(extremes))]
	b := a
	if j != i {
		b = extremes[x.Choose(len(extremes))]
	}
	box := x.Pick("0 0 12 8", "0 0 1e-6 1e6")
	for k := 0; k < n; k++ {
		v := argNum(k + 2)
		if k == i {
			v = a
		} else if k == j {
			v = b
		}
		t = strings.Replace(t, "$", v, 1)
	}
	text := `<svg viewBox="` + box + `">` + t + `</svg>`
	x.Desc(func() string { return text })
	x.State(text)
	p := x.parse(text, svg.StrictErrorMode)
	if p.err != nil {
		x.Outcome("error " + p.err.Error())
		return
	}
	for _, sp := range p.s.SvgPaths {
		if len(sp.Path) > 100000 {
			x.Failf("a path of %d operations", len(sp.Path))
		}
	}
	x.OutcomeH(docHash(p.s))
	far, dashed := 0.0, false
	for _, sp := range p.s.SvgPaths {
		m := sp.Style.Transform
		far = math.Max(far, sp.Style.LineWidth*m.LineWidthScale())
		if sp.Style.Dash.Dash != nil {
			dashed = true
		}
		for _, op := range sp.Path {
			for _, q := range opPoints(op) {
				a, b := m.Transform(q.X, q.Y)
				far = math.Max(far, math.Max(math.Abs(a), math.Abs(b)))
			}
		}
	}
	if (dashed || !x.Thorough) && !(far < 5000) {
		return // a hundred thousand dashes of the widest lines take minutes, but not for ever
	}
	for k := 0; k < nBackends; k++ {
		if backendNames[k] == "gg" && !(far < 5000) {
			continue // gg flattens curves into pieces of a pixel: gigabytes for the longest ones
		}
		c := newCanvas(k, 12, 8)
		x.Call("drawing with "+backendNames[k], func() { c.draw(p.s) })
	}
}

// drawings under all pairs of special transforms, of the shape and of its group or mask content
func runSpecialDraw(where string, check func(x *X, d *drawing)) func(x *X) {
	return func(x *X) {
		a, b := specialTransforms[x.Choose(len(specialTransforms))], specialTransforms[x.Choose(len(specialTransforms))]
		shape := x.Pick(`<path d="M1 2H30V15L4 9z" fill="#102030"`, `<path d="M1 2H30V15L4 9z" fill="none" stroke="#fedcba" stroke-width="3"`)
		var text string
		if where == "mask" {
			text = `<mask id="m"><rect x="2" y="3" width="9" height="7" fill="white" transform="` + b + `"/></mask>` + shape + ` transform="` + a + `" mask="url(#m)"/>`
		} else {
			text = `<g transform="` + a + `">` + shape + ` transform="` + b + `"/></g>`
		}
		d := x.drawText(`<svg viewBox="0 0 40 24">` + text + `</svg>`)
		x.State(d.text)
		check(x, d)
	}
}

func init() {
	d2 := func(x *X, d *drawing) { x.checkD2(newRecGC(), 0, d) }
	rx := func(x *X, d *drawing) { r, s := newRecDasher(); x.checkScans(r, s, d) }
	g := func(x *X, d *drawing) { x.checkGG(gg.NewContext(ggW, ggH), d, 1) }
	note := fmt.Sprintf("all pairs of %d transform functions with special arguments, filled and stroked", len(specialTransforms))
	addDrivers("C10", &Driver{Name: "many", Quick: -1, Thorough: -1, Run: runC10Many, Note: "0..24, 33, 65 and 130 stops x 6 patterns of offsets x 4 of colours x 3 of opacities"})
	addDrivers("C10", &Driver{Name: "blanks", Quick: -1, Thorough: -1, Run: runC10Blanks, Note: "7 kinds of white space before and after the values of 22 attributes"})
	addDrivers("C11", &Driver{Name: "visible", Quick: -1, Thorough: -1, Run: runVisible(4, 6, "mask"), Note: "masks of 1..4 (6) shapes of 6 visibilities at 3 places"})
	addDrivers("C12", &Driver{Name: "visible", Quick: -1, Thorough: -1, Run: runVisible(4, 6, "g"), Note: "groups of 1..4 (6) shapes of 6 visibilities at 3 places"},
		&Driver{Name: "dims", Quick: -1, Thorough: -1, Run: runC12Dims, Note: fmt.Sprintf("%d numbers as width and height, in 5 spellings", len(sweepVals))})
	addDrivers("C14", &Driver{Name: "extreme", Quick: -1, Thorough: -1, Run: runC14Extreme, Note: "14 extreme numbers at every pair of places of 16 elements"})
	addDrivers("C19", &Driver{Name: "special", Quick: -1, Thorough: -1, Run: runSpecialDraw("", d2), Note: note})
	addDrivers("C20", &Driver{Name: "special", Quick: -1, Thorough: -1, Run: runSpecialDraw("", rx), Note: note})
	addDrivers("C21", &Driver{Name: "special", Quick: -1, Thorough: -1, Run: runSpecialDraw("", g), Note: note},
		&Driver{Name: "specialmask", Quick: -1, Thorough: -1, Run: runSpecialDraw("mask", g), Note: note + ", of shape and mask content"})
}

// opPoints are the points of an operation.
func opPoints(op svg.Operation) (out []pt) {
	add := func(p fixed.Point26_6) { out = append(out, pt{X: float64(p.X) / 64, Y: float64(p.Y) / 64}) }
	switch o := op.(type) {
	case svg.OpMoveTo:
		add(fixed.Point26_6(o))
	case svg.OpLineTo:
		add(fixed.Point26_6(o))
	case svg.OpQuadTo:
		add(o[0])
		add(o[1])
	case svg.OpCubicTo:
		add(o[0])
		add(o[1])
		add(o[2])
	}
	return
}

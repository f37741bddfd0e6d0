package main

// Sweeps: one number of a document takes every value of a long list while the rest stays the same.

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"mc/model"

	"github.com/fogleman/gg"
	svg "github.com/lafriks/go-svg"
)

// sweepVals are fine steps around zero and one, whole numbers over two turns, and the neighbourhoods of
// powers of two and ten.
var sweepVals = func() (out []float64) {
	seen := map[float64]bool{}
	add := func(v float64) {
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	for k := 0; k <= 200; k++ {
		add(float64(k) / 200)
	}
	for k := 0; k <= 128; k++ {
		add(float64(k) / 8)
		add(float64(-k) / 8)
	}
	for k := 0; k <= 740; k++ {
		add(float64(k))
		if k%2 == 0 {
			add(float64(-k))
		}
	}
	for p := 32.0; p <= 1<<17; p *= 2 {
		for _, d := range []float64{-1, -0.5, 0, 0.5, 1} {
			add(p + d)
			add(-p - d)
		}
	}
	for p := 1e-6; p <= 1e5; p *= 10 {
		for _, f := range []float64{1, 2.5, 9.99} {
			add(p * f)
			add(-p * f)
		}
	}
	return
}()

func num(v float64) string { return strconv.FormatFloat(v, 'g', 12, 64) }

// sweep chooses a value between the bounds.
func (x *X) sweep(min, max float64) string {
	v := sweepVals[x.Choose(len(sweepVals))]
	if v < min || v > max {
		x.Skip()
	}
	return num(v)
}

func withDefaults(el, attr string) *model.Node {
	n := model.E(el)
	for _, kv := range strings.Fields(sweepDefault[el]) {
		if k, w, _ := strings.Cut(kv, "="); k != attr {
			n.Set(k, strings.ReplaceAll(w, "_", " "))
		}
	}
	return n
}

var sweepDefault = map[string]string{"rect": "x=3 y=5 width=40 height=30", "circle": "cx=7 cy=8 r=9", "ellipse": "cx=7 cy=8 rx=9 ry=4", "line": "x1=3 y1=4 x2=5 y2=6", "use": "href=#d x=3 y=4",
	"mask": "id=m x=1 y=2 width=3 height=4", "linearGradient": "id=l", "radialGradient": "id=l cx=.4 cy=.6"}

const far = 150000

func runSweepLength(els string, units []string) func(x *X) {
	var list [][2]string
	for _, a := range lengthAttrs {
		if strings.Contains(els, " "+a[0]+" ") {
			list = append(list, a)
		}
	}
	return func(x *X) {
		a := list[x.Choose(len(list))]
		min := -float64(far)
		switch {
		case a[1] == "r" || a[1] == "rx" || a[1] == "ry" || a[1] == "width" || a[1] == "height" || a[1] == "fr" || a[1] == "stroke-width" || a[1] == "stroke-miterlimit":
			min = 0
		}
		u := units[x.Choose(len(units))]
		if (a[1] == "stroke-miterlimit" || strings.Contains(a[1], "opacity") || a[1] == "offset") && u != "" && u != "%" {
			x.Skip()
		}
		if a[1] == "stroke-miterlimit" && u == "%" {
			x.Skip()
		}
		max := float64(far)
		if u != "" && u != "px" && u != " px" {
			max = 2500 // renderers keep coordinates below 2^19 pixels
			min = math.Max(min, -max)
		}
		v := x.sweep(min, max) + u
		root := svgRoot(model.E("defs").Add(model.E("line", "id", "d", "x1", "2", "y2", "3")))
		n := withDefaults(a[0], a[1])
		n.Set(a[1], v)
		switch a[0] {
		case "stop":
			root.Add(model.E("linearGradient", "id", "l").Add(n, model.E("stop", "offset", "1")), model.E("line", "x2", "3", "fill", "url(#l)"))
		case "linearGradient", "radialGradient":
			if x.Bool() {
				n.Set("gradientUnits", "userSpaceOnUse")
			}
			root.Add(n.Add(model.E("stop")), model.E("line", "x2", "3", "fill", "url(#l)"))
		case "g":
			root.Add(n.Add(model.E("line", "x2", "3")), model.E("line", "x2", "4"))
		default:
			root.Add(n)
		}
		x.conform(root, svg.StrictErrorMode)
	}
}

// every argument of every command
func runSweepPath(cmds []string) func(x *X) {
	return func(x *X) {
		c := cmds[x.Choose(len(cmds))]
		n := 7
		if c != "A" && c != "a" {
			n = pathArgs[strings.ToUpper(c)]
		}
		at := x.Choose(n)
		args := make([]string, n)
		for i := range args {
			args[i] = argNum(i + 3)
		}
		min := -float64(far)
		if n == 7 {
			args = []string{"9", "5", "20", x.Pick("0", "1"), x.Pick("0", "1"), "6", "8"}
			if at == 3 || at == 4 {
				x.Skip()
			}
			if at < 2 {
				min = 0.01
			}
		}
		v := x.sweep(min, far)
		args[at] = v
		if f, _ := strconv.ParseFloat(v, 64); n == 7 && at >= 5 && math.Abs(f) > 3000 {
			x.Skip()
		} else if n == 7 && at < 2 && f > 5000 {
			x.Skip()
		}
		x.conform(svgRoot(model.E("path", "d", "M2 3"+c+strings.Join(args, " ")+"l1 1z")), svg.StrictErrorMode)
	}
}

// every argument of every transform function
func runSweepTransform(x *X) {
	fns := []struct {
		name string
		args []string
	}{{"translate", []string{"3"}}, {"translate", []string{"3", "4"}}, {"scale", []string{"2"}}, {"scale", []string{"2", "3"}}, {"rotate", []string{"10"}}, {"rotate", []string{"30", "4", "5"}}, {"skewX", []string{"10"}}, {"skewY", []string{"10"}}, {"matrix", []string{"1", "2", "3", "4", "5", "6"}}}
	f := fns[x.Choose(len(fns))]
	at := x.Choose(len(f.args))
	args := append([]string{}, f.args...)
	args[at] = x.sweep(-2000, 2000)
	if v, _ := strconv.ParseFloat(args[at], 64); strings.HasPrefix(f.name, "skew") && math.Abs(math.Cos(v*math.Pi/180)) < 0.02 {
		x.Skip() // no limit of the tangent is claimed
	}
	t := f.name + "(" + strings.Join(args, ",") + ")"
	inner := x.Pick("", "rotate(20)")
	x.conform(svgRoot(model.E("g", "transform", inner+t).Add(model.E("line", "x1", "1", "y1", "2", "x2", "3", "y2", "5")), model.E("line", "x2", "1")), svg.StrictErrorMode)
}

// transform functions with special arguments, in all pairs
var specialTransforms = func() (out []string) {
	for _, a := range []string{"0", "30", "45", "90", "-90", "180", "270", "360"} {
		out = append(out, "rotate("+a+")")
		for _, c := range []string{"0 0", "5 0", "0 6", "5 6", "5 5"} {
			if a == "30" || a == "90" || a == "180" || a == "360" {
				out = append(out, "rotate("+a+" "+c+")")
			}
		}
	}
	for _, a := range []string{"0", "1", "-1", "2", "1 1", "1 -1", "-1 1", "2 2", "2 1", "1 2", "2 .5", "0 1"} {
		out = append(out, "scale("+a+")")
	}
	for _, a := range []string{"0", "5", "0 5", "5 0", "5 5", "5 -5"} {
		out = append(out, "translate("+a+")")
	}
	for _, a := range []string{"0", "45", "-45", "30"} {
		out = append(out, "skewX("+a+")", "skewY("+a+")")
	}
	for _, l := range []string{"1 0 0 1", "2 0 0 2", "-1 0 0 1", "1 0 0 -1", "2 0 0 3", "0 1 -1 0", "0 1 1 0", "1 2 0 1", "1 0 2 1", "1 1 1 1", "0 0 0 0", "1 2 3 4", "1 1 -1 1"} {
		for _, e := range []string{" 0 0", " 5 0", " 0 6", " 5 6"} {
			out = append(out, "matrix("+l+e+")")
		}
	}
	return
}()

func runSpecialTransforms(x *X) {
	a, b := specialTransforms[x.Choose(len(specialTransforms))], specialTransforms[x.Choose(len(specialTransforms))]
	line := model.E("line", "x1", "1", "y1", "2", "x2", "3", "y2", "5")
	root := svgRoot()
	switch x.Choose(4) {
	case 0:
		root.Add(model.E("g", "transform", a+b).Add(line))
	case 1:
		root.Add(model.E("g", "transform", a).Add(line.Set("transform", b)))
	case 2:
		root.Add(model.E("g", "transform", "rotate(20)").Add(line.Set("transform", a+","+b)))
	case 3:
		root.Add(model.E("linearGradient", "id", "l", "gradientTransform", a+b).Add(model.E("stop")), line.Set("fill", "url(#l)"))
	}
	x.conform(root, svg.StrictErrorMode)
}

func runSweepViewBox(x *X) {
	args := []string{"1", "2", "300", "400"}
	k := x.Choose(4)
	min := -float64(far)
	if k > 1 {
		min = 0
	}
	args[k] = x.sweep(min, far)
	root := model.E("svg", "viewBox", strings.Join(args, " "))
	if x.Bool() {
		root.Set("width", "50").Set("height", "70")
	}
	root.Add(model.E("line", "x2", "10%", "y2", "20%", "stroke-width", "3%"))
	x.conform(root, svg.StrictErrorMode)
}

// percentages of every kind in viewBoxes of every size
func runSweepBox(x *X) {
	args := []string{"1", "2", "300", "400"}
	k := 2 + x.Choose(2)
	other := x.Pick("100", "350", "1000")
	v := x.sweep(0.01, far)
	args[k], args[5-k] = v, other
	root := model.E("svg", "viewBox", strings.Join(args, " "))
	if x.Bool() {
		root.Set("width", "50").Set("height", "70")
	}
	root.Add(model.E("defs").Add(model.E("line", "id", "d", "x1", "2", "y2", "3")),
		model.E("linearGradient", "id", "l", "x1", "10%", "y1", "20%", "gradientUnits", "userSpaceOnUse").Add(model.E("stop")),
		model.E("radialGradient", "id", "r", "cx", "10%", "cy", "20%", "r", "80%", "gradientUnits", "userSpaceOnUse").Add(model.E("stop")))
	switch x.Choose(5) {
	case 0:
		root.Add(model.E("line", "x1", "10%", "y1", "20%", "x2", "90%", "y2", "-30%", "stroke-width", "95%", "stroke-dasharray", "40% 70%", "stroke-dashoffset", "60%"))
	case 1:
		root.Add(model.E("rect", "x", "10%", "y", "20%", "width", "50%", "height", "30%", "rx", "4%", "ry", "5%", "fill", "url(#l)", "stroke", "url(#r)"))
	case 2:
		root.Add(model.E("circle", "cx", "10%", "cy", "20%", "r", "99%"))
	case 3:
		root.Add(model.E("ellipse", "cx", "10%", "cy", "20%", "rx", "30%", "ry", "40%"))
	default:
		root.Add(model.E("use", "href", "#d", "x", "10%", "y", "20%"), model.E("mask", "id", "m", "x", "10%", "y", "20%", "width", "30%", "height", "40%"))
	}
	x.conform(root, svg.StrictErrorMode)
}

// a drawing whose style or option takes every value
func runSweepDraw(what string, check func(x *X, d *drawing)) func(x *X) {
	places := strings.Fields(what)
	return func(x *X) {
		p := places[x.Choose(len(places))]
		tmpl := `<path d="M2 4H38V20L5 9z" fill="#102030" stroke="#fedcba" %s/>`
		attr, opt := "", ""
		switch p {
		case "stroke-width":
			attr = p + `="` + x.sweep(0.02, 300) + `"`
		case "dash":
			attr = `stroke-dasharray="` + x.sweep(0.1, 3000) + ` 3"`
		case "gap":
			attr = `stroke-dasharray="4 ` + x.sweep(0.1, 3000) + `"`
		case "offset":
			v := x.sweep(-3000, 3000)
			if f, _ := strconv.ParseFloat(v, 64); f != 0 && math.Mod(f, 7) == 0 {
				x.Skip() // a whole number of periods: where the first dash begins is a matter of rounding
			}
			attr = `stroke-dasharray="4 3" stroke-dashoffset="` + v + `"`
		case "miter":
			attr = `stroke-linejoin="miter" stroke-miterlimit="` + x.sweep(0, 300) + `"`
		case "opacity", "fill-opacity", "stroke-opacity":
			attr = p + `="` + x.sweep(0, 1) + `"`
		case "rotate":
			attr = `transform="rotate(` + x.sweep(-720, 740) + `,20,12)"`
		case "scale":
			attr = `transform="scale(` + x.sweep(-20, 20) + `,2)"`
		case "translate":
			attr = `transform="translate(` + x.sweep(-200, 200) + `,2)"`
		case "opt-opacity":
			opt = x.sweep(0, 1)
		case "opt-x", "opt-y":
			opt = x.sweep(-500, 500)
		case "opt-w", "opt-h":
			opt = x.sweep(0.5, 500)
		}
		d := x.drawText(`<svg viewBox="0 0 40 24">` + fmt.Sprintf(tmpl, attr) + `</svg>`)
		if opt != "" {
			f, _ := strconv.ParseFloat(opt, 64)
			o := &optDraw{opacity: 1}
			r := rect{1, 2, 20, 12}
			switch p {
			case "opt-x":
				r.X = f
			case "opt-y":
				r.Y = f
			case "opt-w":
				r.W = f
			case "opt-h":
				r.H = f
			}
			if p == "opt-opacity" {
				o.add(0, nil, []float64{f})
			} else {
				o.add(0, []rect{r}, nil)
			}
			d = o.on(d.text, d.s)
			x.Desc(func() string { return o.text + " " + d.text })
			d.optText = o.text
		}
		x.State(d.text, d.optText)
		check(x, d)
	}
}

func init() {
	d2 := func(x *X, d *drawing) { x.checkD2(newRecGC(), 0, d) }
	rx := func(x *X, d *drawing) { r, s := newRecDasher(); x.checkScans(r, s, d) }
	g := func(x *X, d *drawing) { x.checkGG(gg.NewContext(ggW, ggH), d, 1) }
	note := fmt.Sprintf("each number in turn takes %d values", len(sweepVals))
	one := func(run func(x *X)) *Driver {
		return &Driver{Name: "sweep", Quick: -1, Thorough: -1, Run: run, Note: note}
	}
	plain := []string{""}
	addDrivers("C01", one(runSweepPath([]string{"M", "L", "H", "V", "C", "S", "Q", "T", "m", "l", "h", "v", "c", "s", "q", "t"})))
	addDrivers("C02", one(runSweepPath([]string{"A", "a"})))
	addDrivers("C04", one(runSweepLength(" rect circle ellipse line ", plain)))
	addDrivers("C05", one(runSweepLength(" rect circle ellipse line use g linearGradient radialGradient ", []string{"px", "cm", "mm", "pt", "in", "pc", "Q", "%", " px", " %"})))
	addDrivers("C05", &Driver{Name: "sweepbox", Quick: -1, Thorough: -1, Run: runSweepBox, Note: note})
	addDrivers("C06", one(runSweepLength(" g ", []string{"", "%"})))
	addDrivers("C08", one(runSweepTransform))
	addDrivers("C08", &Driver{Name: "special", Quick: -1, Thorough: -1, Run: runSpecialTransforms, Note: fmt.Sprintf("all pairs of %d transform functions with special arguments", len(specialTransforms))})
	addDrivers("C09", one(runSweepLength(" use ", plain)))
	addDrivers("C10", one(runSweepLength(" linearGradient radialGradient stop ", []string{"", "%"})))
	addDrivers("C11", one(runSweepLength(" mask ", []string{"", "%", "mm"})))
	addDrivers("C12", one(runSweepViewBox))
	style := "stroke-width dash gap offset miter opacity fill-opacity stroke-opacity rotate scale translate"
	addDrivers("C19", one(runSweepDraw(style, d2)))
	addDrivers("C20", one(runSweepDraw(style, rx)))
	addDrivers("C21", one(runSweepDraw(style, g)))
	addDrivers("C22", one(runSweepDraw("opt-opacity opt-x opt-y opt-w opt-h", d2)))
	addDrivers("C22", &Driver{Name: "sweeprx", Quick: -1, Thorough: -1, Run: runSweepDraw("opt-opacity opt-x opt-y opt-w opt-h", rx), Note: note})
	addDrivers("C22", &Driver{Name: "sweepgg", Quick: -1, Thorough: -1, Run: runSweepDraw("opt-opacity opt-x opt-y opt-w opt-h", g), Note: note})
}

package main

import (
	"strings"

	"mc/model"

	"github.com/fogleman/gg"
	svg "github.com/lafriks/go-svg"
)

// ---- C01: amounts of argument groups of neighbouring commands ----

func runC01Groups(x *X) {
	var b strings.Builder
	k := 0
	emit := func(c string, groups int) {
		b.WriteString(c)
		for n := groups * pathArgs[strings.ToUpper(c)]; n > 0; n-- {
			b.WriteString(" " + argNum(k))
			k++
		}
	}
	emit("M", 1)
	for i := 0; i < 2; i++ {
		c := x.Pick(pathCmds...)
		n := 1
		if c != "z" && c != "Z" {
			n = 1 + x.Choose(5)
		}
		emit(c, n)
	}
	emit(x.Pick(pathCmds...), 1)
	x.conform(svgRoot(model.E("path", "d", b.String())), svg.StrictErrorMode)
}

// ---- C10: one gradient after another ----

var gradSettings = [][]string{{}, {"gradientUnits", "userSpaceOnUse"}, {"gradientUnits", "objectBoundingBox"}, {"spreadMethod", "reflect"}, {"spreadMethod", "repeat"}, {"spreadMethod", "pad"},
	{"gradientTransform", "rotate(30)"}, {"gradientTransform", "translate(3 4)"}, {"gradientTransform", "matrix(1 2 3 4 5 6)"}, {"x1", "20%"}, {"y1", "0.5"}, {"x2", "7"}, {"y2", "30%"},
	{"cx", "10%"}, {"cy", "0.7"}, {"fx", "0.3"}, {"fy", "20%"}, {"r", "0.9"}, {"fr", "0.1"}, {"gradientUnits", "userSpaceOnUse", "x1", "20%"}, {"gradientUnits", "userSpaceOnUse", "cx", "20%"}, {"transform", "scale(3)"}, {"fill", "red"}, {"style", "fill:blue;stop-color:red"}}

func runC10Two(x *X) {
	g := func(id string) *model.Node {
		n := model.E(x.Pick("linearGradient", "radialGradient"), "id", id)
		s := gradSettings[x.Choose(len(gradSettings))]
		for i := 0; i < len(s); i += 2 {
			n.Set(s[i], s[i+1])
		}
		return n.Add(model.E("stop", "offset", "20%"), model.E("stop", "offset", "0.8", "stop-color", "olive", "stop-opacity", ".5"))
	}
	a, b := g("a"), g("b")
	root := svgRoot()
	user := func(id string) *model.Node {
		return model.E("line", "x2", "4", "stroke", "url(#"+id+")", "fill", "url(#"+id+")")
	}
	switch x.Choose(6) {
	case 0:
		root.Add(a, b)
	case 1:
		root.Add(model.E("defs").Add(a, b))
	case 2:
		root.Add(model.E("defs").Add(a), model.E("defs").Add(b))
	case 3:
		root.Add(model.E("g", "transform", "scale(2)", "fill", "navy").Add(a, user("a")), b)
	case 4:
		root.Add(model.E("defs").Add(a, model.E("line", "id", "q", "x2", "3")), user("a"), b, model.E("use", "href", "#q", "fill", "url(#b)"))
	case 5:
		root.Add(a, model.E("mask", "id", "m").Add(b, user("b")))
	}
	root.Add(user("b"), user("a"), user("b"))
	x.conform(root, svg.StrictErrorMode)
}

// ---- C21, C23, C24: masks of several shapes ----

var maskShapes = []string{
	`<rect x="1" y="1" width="6" height="5" fill="white"/>`,
	`<path d="M1 7L11 1" fill="none" stroke="red" stroke-width="3"/>`,
	`<circle cx="8" cy="4" r="3" fill="url(#L)" opacity=".5"/>`,
	`<path d="M0 0h5v3h-5z" fill="none"/>`,
	`<rect width="9" height="4" fill="#123456" mask="url(#m1)"/>`,
	`<path d="M1 1L9 2 5 7" stroke="white" stroke-dasharray="1 2" fill-rule="evenodd" transform="rotate(9)"/>`,
	`<rect width="0" height="4"/>`,
}

func runMaskLists(n, nt int, check func(x *X, d *drawing)) func(x *X) {
	return func(x *X) {
		m := n
		if x.Thorough {
			m = nt
		}
		t := `<svg viewBox="0 0 12 8">` + drawDefs + `<mask id="k">`
		for i := x.Choose(m + 1); i > 0; i-- {
			t += maskShapes[x.Choose(len(maskShapes))]
		}
		t += `</mask><rect width="12" height="8" fill="#ff8000" stroke="blue" mask="url(#k)"/><path d="M2 1h3v6" stroke="#00ff00" fill="none"` + x.Pick("", ` mask="url(#k)" transform="translate(3)"`) + `/></svg>`
		d := x.drawText(t)
		x.State(t)
		check(x, d)
	}
}

// ---- C24: what is not needed for drawing ----

func runC24Bare(n int) func(x *X) {
	return func(x *X) {
		d := x.drawing(n, true)
		s := copyDoc(d.s)
		what := ""
		switch x.Choose(8) {
		case 0:
			s.Transform, what = svg.Matrix2D{}, "without the document's transform"
		case 1:
			s.Width, s.Height, what = "", "", "without width and height"
		case 2:
			s.Width, s.Height, what = "50%", "3cm", "with other width and height"
		case 3:
			s.Titles, s.Descriptions, what = []string{"a"}, []string{""}, "with titles"
		case 4:
			s, what = &svg.Svg{ViewBox: s.ViewBox, SvgPaths: s.SvgPaths, SvgMasks: s.SvgMasks}, "of viewBox, paths and masks only"
		case 5:
			for k, m := range s.SvgMasks {
				s.SvgMasks[k] = &svg.SvgMask{ID: m.ID, SvgPaths: m.SvgPaths}
			}
			what = "with masks of ids and paths only"
		case 6:
			for _, m := range s.SvgMasks {
				m.SvgPaths = append([]svg.SvgPath{}, m.SvgPaths...)
			}
			s.SvgMasks["other"] = &svg.SvgMask{ID: "other"}
			what = "with an unused mask"
		case 7:
			s.SvgPaths = append(make([]svg.SvgPath, 0, 100), s.SvgPaths...)
			for i := range s.SvgPaths {
				st := &s.SvgPaths[i].Style
				if st.Dash.Dash == nil {
					st.Dash.Dash = []float64{}
				}
				if st.Masks == nil {
					st.Masks = []string{}
				}
			}
			what = "with empty lists instead of none"
		}
		x.samePictures(s, d.s, d.opts, "a copy "+what)
	}
}

func init() {
	gc := func(x *X, d *drawing) { x.checkGG(gg.NewContext(ggW, ggH), d, 1) }
	addDrivers("C01", &Driver{Name: "groups", Quick: -1, Thorough: -1, Run: runC01Groups, Note: "all pairs of commands of 1..5 argument groups each, followed by every command"})
	addDrivers("C10", &Driver{Name: "two", Quick: -1, Thorough: -1, Run: runC10Two, Note: "all pairs of gradients of 2 kinds and 24 settings one after the other at 6 places"})
	addDrivers("C21", &Driver{Name: "masklists", Quick: -1, Thorough: -1, Run: runMaskLists(4, 5, gc), Note: "masks of all lists of <= 4 (5) of 7 shapes"})
	addDrivers("C23", &Driver{Name: "masklists", Quick: -1, Thorough: -1, Run: runMaskLists(4, 5, func(x *X, d *drawing) { x.checkKept(d) }), Note: "masks of all lists of <= 4 (5) of 7 shapes"})
	addDrivers("C24", &Driver{Name: "bare1", Quick: 1, Thorough: 2, Run: runC24Bare(1), Note: "copies without or with other values of what does not matter for drawing"},
		&Driver{Name: "bare2", Quick: 1, Thorough: 2, Run: runC24Bare(2), Note: "the same with two shapes"},
		&Driver{Name: "masklists", Quick: -1, Thorough: -1, Run: runMaskLists(4, 5, func(x *X, d *drawing) { x.samePictures(copyDoc(d.s), d.s, nil, "a copy") }), Note: "masks of all lists of <= 4 (5) of 7 shapes"})
}

package main

import (
	"fmt"
	"strings"

	"mc/model"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
)

// ---- C02: many arcs whose flags are written together ----

func runC02Flags(x *X) {
	n := 1 + x.Choose(40)
	rel := x.Bool()
	form := x.Choose(4)
	letters := x.Bool()
	var b strings.Builder
	b.WriteString("M5 5")
	cur := pt{X: 5, Y: 5}
	ends := [][2]float64{{2, 3}, {-4, 1}, {0.5, 0.5}, {3, -2}, {6, 0}}
	for i := 0; i < n; i++ {
		if i == 0 || letters {
			b.WriteString(map[bool]string{true: "a", false: "A"}[rel])
		} else {
			b.WriteByte(' ')
		}
		e := ends[i%5]
		cur = pt{X: cur.X + e[0], Y: cur.Y + e[1]}
		px, py := e[0], e[1]
		if !rel {
			px, py = cur.X, cur.Y
		}
		b.WriteString([]string{"7 6", "3,9", "8-8"}[i%3] + []string{" 0 ", ",30,", "-45 "}[i%3])
		fl := fmt.Sprintf("%d%d", i%2, i/2%2)
		switch form {
		case 0:
			b.WriteString(fl)
		case 1:
			b.WriteString(fl + " ")
		case 2:
			b.WriteString(fl[:1] + "," + fl[1:])
		case 3:
			b.WriteString(fl[:1] + " " + fl[1:] + ",")
		}
		fmt.Fprintf(&b, "%v %v", px, py)
	}
	x.conform(svgRoot(model.E("path", "d", b.String()+"l3 4")), svg.StrictErrorMode)
}

// ---- C06, C08: long lists of attributes and declarations, and overriding ones ----

var allSettings = append(append([]styleProp{}, styleProps...), styleProp{"transform", []string{"scale(2)", "translate(3 4)", "rotate(30)"}})

func (x *X) filler(n *model.Node, amount, at int, name, val string, inStyle bool) {
	var decl []string
	for i := 0; i <= amount; i++ {
		k, v := fmt.Sprintf("x-%d", i), fmt.Sprint(i)
		if i == at {
			k, v = name, val
		}
		if inStyle {
			decl = append(decl, k+":"+v)
		} else {
			n.Set(k, v)
		}
	}
	if inStyle {
		n.Set("style", strings.Join(decl, x.Pick(";", "; ", " ;\n")))
	}
}

func runC06Crowd(props []styleProp) func(x *X) {
	return func(x *X) {
		p := props[x.Choose(len(props))]
		n := []int{3, 7, 8, 11, 12, 15, 16, 17, 31, 32, 40, 63, 64, 100}[x.Choose(14)]
		at := []int{0, n / 2, n - 1, n}[x.Choose(4)]
		root := styleRoot()
		g, l := model.E("g"), model.E("line", "x2", "3")
		if x.Bool() {
			x.filler(l, n, at, p.name, p.vals[0], x.Bool())
		} else {
			x.filler(g, n, at, p.name, p.vals[0], x.Bool())
		}
		root.Add(g.Add(l), model.E("line", "y2", "4"))
		x.conform(root, svg.StrictErrorMode)
	}
}

func runC06Override(props []styleProp) func(x *X) {
	return func(x *X) {
		p := props[x.Choose(len(props))]
		v, w := p.vals[x.Choose(len(p.vals))], p.vals[x.Choose(len(p.vals))]
		if strings.Contains(v+w, "url") {
			x.Skip() // its colour depends on what it overrides
		}
		host := model.E(x.Pick("line", "g", "svg"))
		other := [][2]string{{"id", "q"}, {"x2", "3"}, {"class", "c"}}
		pad := func(k int) {
			for i := 0; i < k; i++ {
				host.Set(fmt.Sprint(other[i][0], len(host.Attrs)), other[i][1])
			}
		}
		decl := p.name + ":" + w
		switch x.Choose(5) {
		case 1:
			decl = p.name + ":" + v + ";" + decl
		case 2:
			decl = p.name + ":" + v + ";fill-opacity:1;" + decl
		case 3:
			decl += ";stroke-opacity:1"
		case 4:
			decl = "a:b;" + decl + ";"
		}
		pad(x.Choose(2))
		first := x.Bool()
		if first {
			host.Set("style", decl)
			pad(x.Choose(3))
			host.Set(p.name, v)
		} else {
			host.Set(p.name, v)
			pad(x.Choose(3))
			host.Set("style", decl)
		}
		pad(x.Choose(2))
		root := styleRoot()
		kid := model.E("line", "y2", "7")
		if x.Bool() {
			kid.Set(p.name, p.vals[0])
		}
		root.Add(model.E("g", p.name, p.vals[x.Choose(2)]).Add(host.Add(kid)), model.E("line", "y2", "4"))
		x.conform(root, svg.StrictErrorMode)
	}
}

// ---- C12: amounts of titles and descriptions ----

func runC12Counts(x *X) {
	n := 1 + x.Choose(20)
	empty := x.Choose(n + 1)
	kind := x.Choose(3)
	root := svgRoot(model.T("o"))
	for i := 0; i < n; i++ {
		e := model.E([]string{"title", "desc"}[map[int]int{0: 0, 1: 1, 2: i % 2}[kind]])
		if i != empty {
			e.Add(model.T(fmt.Sprint("t", i)))
		}
		root.Add(e, model.T("o"))
		if i%3 == 0 {
			root.Add(model.E("line", "x2", fmt.Sprint(i+1)))
		}
	}
	x.conform(root, svg.IgnoreErrorMode)
}

// ---- C22, C24: which fields the target mapping is made of ----

func runC24Roots(x *X) {
	vb := x.Pick("5 0 10 4", "0 0 4 10", "-3 -2 6 6", "1 2 0 5", "0 0 7 0")
	w, h := x.Pick("", "4", "100%", "9mm", "0"), x.Pick("", "4", "7cm", "12", "50%")
	s := x.mustParse(`<svg viewBox="` + vb + `"><path d="M1 1L9 2 4 7z" fill="red" stroke="blue"/></svg>`)
	var o []renderer.RenderOption
	t := drawTargets[x.Choose(len(drawTargets))]
	if t.W != 0 {
		o = append(o, renderer.Target(t.X, t.Y, t.W, t.H))
	}
	if x.Bool() {
		o = append(o, renderer.Opacity(0.5))
	}
	x.Desc(func() string { return fmt.Sprintf("viewBox %s width %q height %q target %v", vb, w, h, t) })
	x.State(vb, w, h, t, len(o))
	want := *renderer.Options(s, o...)
	var pics [nBackends]uint64
	for b := range pics {
		pics[b] = x.picture(s, b, o...)
	}
	s.Width, s.Height = w, h
	s.Titles, s.Descriptions = append(s.Titles, "a"), append(s.Descriptions, "b")
	if got := *renderer.Options(s, o...); got != want {
		x.Failf("with another width, height and title the mapping is %v instead of %v", got, want)
	}
	for b := range pics {
		if x.picture(s, b, o...) != pics[b] {
			x.Failf("with another width, height and title %s draws something else", backendNames[b])
		}
	}
	x.Outcome(fmt.Sprint(want))
}

// roots with and without each of width and height
func runC22Roots(x *X) {
	root := "<svg"
	if v := x.Pick("", "5 0 10 4", "0 0 4 10", "-3 -2 6 6"); v != "" {
		root += ` viewBox="` + v + `"`
	}
	if v := x.Pick("", "7", "30px", "0"); v != "" {
		root += ` width="` + v + `"`
	}
	if v := x.Pick("", "9", "2in", "0"); v != "" {
		root += ` height="` + v + `"`
	}
	o := &optDraw{opacity: 1}
	o.add(x.Choose(4), []rect{{0, 0, 24, 16}, {5, 3, 6, 20}, {-4, 1, 30, 9.5}, {7, 9, 1, 1}}, nil)
	text := root + `><path d="M1 1L9 2 4 7z" fill="red" stroke="blue"/></svg>`
	x.Desc(func() string { return o.text + " " + text })
	p := x.parse(text, svg.StrictErrorMode)
	if p.err != nil {
		x.Failf("parsing failed: %v", p.err)
	}
	d := o.on(text, p.s)
	x.State(o.text, text)
	x.checkOptions(o, d)
	x.drawWith(newPens(), x.Choose(3), d)
}

func init() {
	tr := allSettings[len(allSettings)-1:]
	addDrivers("C02", &Driver{Name: "flags", Quick: -1, Thorough: -1, Run: runC02Flags, Note: "1..40 arcs with 4 spellings of the flags, one command or many"})
	addDrivers("C06", &Driver{Name: "crowd", Quick: -1, Thorough: -1, Run: runC06Crowd(styleProps), Note: "each property at 4 places among up to 100 other attributes or declarations"},
		&Driver{Name: "override", Quick: -1, Thorough: -1, Run: runC06Override(styleProps), Note: "each property as attribute and in declarations of one element, all pairs of values, in both orders with other attributes between"})
	addDrivers("C08", &Driver{Name: "crowd", Quick: -1, Thorough: -1, Run: runC06Crowd(tr), Note: "a transform at 4 places among up to 100 other attributes or declarations"},
		&Driver{Name: "override", Quick: -1, Thorough: -1, Run: runC06Override(tr), Note: "transforms as attribute and in declarations of one element"})
	addDrivers("C12", &Driver{Name: "counts", Quick: -1, Thorough: -1, Run: runC12Counts, Note: "1..20 titles and descriptions, any of them empty, with text between"})
	addDrivers("C22", &Driver{Name: "roots", Quick: -1, Thorough: -1, Run: runC22Roots, Note: "4 viewBoxes x 4 widths x 4 heights x 4 targets x 3 renderers"})
	addDrivers("C24", &Driver{Name: "roots", Quick: -1, Thorough: -1, Run: runC24Roots, Note: "edits of width, height, titles: 5 viewBoxes x 5 widths x 5 heights x 5 targets x 2 opacities"})
}

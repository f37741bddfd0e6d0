package main

// All pairs (and some triples) of features of a document in all relations they can have to each other.

import (
	"strings"

	"mc/model"

	"github.com/fogleman/gg"
	svg "github.com/lafriks/go-svg"
)

// feature is an element, or attributes, that belong to the subjects of some properties.
type feature struct {
	fam   string // letters of the families
	elem  []string
	text  string
	attrs []string
	kids  []*feature
}

func (f *feature) node() *model.Node {
	if f.elem == nil {
		return model.T(f.text)
	}
	n := model.E(f.elem[0], f.elem[1:]...)
	for _, k := range f.kids {
		n.Add(k.node())
	}
	if f.text != "" {
		n.Add(model.T(f.text))
	}
	return n
}

func (f *feature) on(n *model.Node) *model.Node {
	for i := 0; i+1 < len(f.attrs); i += 2 {
		n.Set(f.attrs[i], f.attrs[i+1])
	}
	return n
}

// families: p path, a arc, n numbers, s shape, u units, y style, c colour, t transform, i instance, g gradient, m mask, o order and text, x unsupported
var elemFeatures, attrFeatures []*feature

func ef(fam string, elem ...string) *feature {
	f := &feature{fam: fam, elem: elem}
	elemFeatures = append(elemFeatures, f)
	return f
}

func af(fam string, attrs ...string) {
	attrFeatures = append(attrFeatures, &feature{fam: fam, attrs: attrs})
}

func kidOf(elem ...string) *feature { return &feature{elem: elem} }

func init() {
	ef("s", "line", "x2", "3", "y2", "4")
	ef("su", "line", "x1", "10%", "y1", "10%", "x2", "2mm", "y2", "1cm")
	ef("s", "rect", "x", "1", "y", "2", "width", "7", "height", "5")
	ef("s", "rect", "width", "7", "height", "5", "rx", "2")
	ef("s", "rect", "x", "-9", "width", "7", "height", "5", "ry", "20")
	ef("su", "rect", "width", "50%", "height", "25%", "rx", "1", "ry", "5%")
	ef("s", "rect", "width", "0", "height", "5")
	ef("s", "rect", "width", "8", "height", "5", "rx", "0", "ry", "2")
	ef("s", "circle", "cx", "5", "cy", "6", "r", "4")
	ef("su", "circle", "cx", "10%", "r", "5%")
	ef("s", "circle", "cx", "10")
	ef("s", "ellipse", "cx", "5", "cy", "6", "rx", "4", "ry", "2")
	ef("su", "ellipse", "rx", "4pt", "ry", "1%")
	ef("sn", "polyline", "points", "1,2 3,4 5-6")
	ef("sn", "polyline", "points", "1 2.5.5 3")
	ef("s", "polyline", "points", "")
	ef("sn", "polygon", "points", "1e0,2 3,4 5,-6 7.5,8")
	ef("s", "polygon", "points", "1,1 2,2")
	ef("p", "path", "d", "M1 2L3 4")
	ef("p", "path", "d", "m1 2 3 4 5 6z")
	ef("p", "path", "d", "M1 2h3v4H5V6zl3 3")
	ef("p", "path", "d", "M1 2q3 4 5 6t7 8")
	ef("p", "path", "d", "M1 2T7 8 9 1")
	ef("p", "path", "d", "M1 2c3 4 5 6 7 8s9 1 2 3S1 1 2 2")
	ef("p", "path", "d", "M1 2S9 1 2 3")
	ef("p", "path", "d", "M0 0L1 1zm4 4h2zM9 9")
	ef("p", "path", "d", "")
	ef("pn", "path", "d", "M.5.5-1-1L+3,4e-1")
	ef("a", "path", "d", "M1 2a5 5 0 0 1 3 4")
	ef("a", "path", "d", "M1 2A5 3 30 1 0 9 8z")
	ef("a", "path", "d", "M1 2a1 1 0 0010 0 0 3 0 11 4 4")
	ef("a", "path", "d", "M1 2A5 5 0 1 1 1 2l3 3")
	ef("i", "use", "href", "#d1")
	ef("i", "use", "xlink:href", "#d2", "x", "3", "y", "4")
	ef("iu", "use", "x", "10%", "y", "10%", "href", "#d1")
	ef("i", "use", "href", "#d3")
	ef("it", "use", "href", "#d2", "transform", "rotate(30)", "x", "5")
	ef("o", "title").text = "first & <second>"
	ef("o", "title")
	ef("o", "desc").text = "about"
	ef("o").text = "stray"
	ef("o", "svg", "viewBox", "0 0 5 5", "width", "7").kids = []*feature{kidOf("line", "x2", "8")}
	ef("o", "g")
	ef("o", "g", "id", "d1").kids = []*feature{kidOf("line", "x2", "6"), kidOf("line", "x2", "7")}
	ef("x", "text", "x", "1").text = "t"
	ef("x", "text").kids = []*feature{kidOf("tspan"), kidOf("line", "x2", "5")}
	ef("i", "defs").kids = []*feature{{elem: []string{"g", "id", "d2"}, kids: []*feature{kidOf("line", "x2", "9"), kidOf("use", "href", "#d1")}}}
	ef("i", "defs").kids = []*feature{kidOf("circle", "id", "d9", "r", "3"), kidOf("line", "x1", "3")}
	ef("g", "linearGradient", "id", "g1", "x1", "20%", "y2", "1").kids = []*feature{kidOf("stop", "offset", "50%", "stop-color", "olive"), kidOf("stop", "offset", "1", "stop-opacity", ".5")}
	ef("g", "radialGradient", "id", "g2", "cx", "3", "r", "4", "gradientUnits", "userSpaceOnUse").kids = []*feature{kidOf("stop", "style", "stop-color:#123")}
	ef("g", "linearGradient", "id", "g3", "gradientUnits", "userSpaceOnUse", "x2", "50%", "gradientTransform", "rotate(5)")
	ef("m", "mask", "id", "k1", "x", "1", "width", "5%").kids = []*feature{kidOf("rect", "width", "3", "height", "4", "fill", "white"), kidOf("line", "x2", "2")}
	ef("m", "mask", "id", "k2").kids = []*feature{kidOf("use", "href", "#d1")}
	ef("m", "mask", "id", "k3")

	af("y") // nothing
	for _, p := range styleProps {
		for i, v := range p.vals {
			if i > 3 {
				break
			}
			fam := "y"
			if p.name == "fill" || p.name == "stroke" {
				fam = "yc"
			}
			v = strings.ReplaceAll(v, "#lg", "#g0")
			if strings.Contains(v, "url") {
				fam = "g"
			}
			af(fam, p.name, v)
			if i < 2 {
				af(fam, "style", p.name+":"+v)
			}
		}
	}
	af("gc", "fill", "url(#g1)")
	af("gc", "stroke", "url(#g2)")
	af("g", "style", "fill:url(#g0);stroke:url(#g1)")
	af("yc", "style", "fill:rgb(10%,20%,300);stroke:#AbCdEf;opacity:.5")
	af("y", "style", "stroke-width:5;stroke-dasharray:1 2;stroke-linejoin:round")
	af("yu", "stroke-width", "1in")
	af("yu", "stroke-dasharray", "1mm 10%")
	af("t", "transform", "translate(3)")
	af("t", "transform", "translate(3,4) scale(2)")
	af("t", "transform", "rotate(30 5 6)")
	af("t", "transform", "skewX(20) skewY(10)")
	af("t", "transform", "matrix(1 2 3 4 5 6)")
	af("t", "style", "transform:scale(-1 1)")
	af("t", "transform", "scale(0)")
	af("t", "transform", "")
	af("m", "mask", "url(#k1)")
	af("m", "mask", "url(#k2)")
	af("m", "style", "mask:url(#k3)")
	af("m", "mask", "none")
	af("o", "id", "d1")
	af("o", "id", "zz", "class", "c", "data-x", "1", "xml:lang", "en")
	af("x", "stroke-linecap", "wavy")
	af("x", "fill-rule", "odd")
	af("x", "style", "stroke-linejoin:bad;fill:lime")
	af("o", "q:fill", "red", "q:x2", "55")
	af("o", "style", "")
	af("o", "style", "nonsense;;a:b")
}

func pairRoot() *model.Node {
	g := model.E
	return svgRoot(
		g("linearGradient", "id", "g0", "x1", "0.25").Add(g("stop", "offset", "0.5", "stop-color", "navy"), g("stop", "offset", "1")),
		g("defs").Add(g("line", "id", "d1", "x2", "21", "stroke", "green"), g("g", "id", "d2", "fill", "teal", "transform", "scale(2)").Add(g("rect", "width", "3", "height", "2", "opacity", "0.5"), g("line", "y2", "22")),
			g("g", "id", "d3").Add(g("use", "href", "#d2", "x", "2"), g("title").Add(model.T("hid")), g("path", "d", "M1 1q2 3 4 5"))))
}

// hasID tells features apart that change what a use refers to
func setsID(f *feature) bool {
	return len(f.attrs) > 1 && f.attrs[0] == "id" && f.attrs[1] == "d1"
}

// clash tells whether two attribute lists on one element set the same attribute, or a paint whose colour
// depends on what it overrides
func clash(a, b *feature) bool {
	for i := 0; i < len(a.attrs); i += 2 {
		for j := 0; j < len(b.attrs); j += 2 {
			if a.attrs[i] == b.attrs[j] {
				return true
			}
		}
	}
	all := strings.Join(a.attrs, " ") + " " + strings.Join(b.attrs, " ")
	if strings.Contains(all, "scale(0)") && strings.ContainsAny(all, "aA") && strings.Contains(all, "d M1 2") {
		return true // the shape of an arc cannot be read back from a point
	}
	return strings.Contains(all, "url(#g") && strings.Contains(all, "style")
}

func famOf(fam string, fs ...*feature) bool {
	if fam == "" {
		return true
	}
	for _, f := range fs {
		if strings.ContainsAny(f.fam, fam) {
			return true
		}
	}
	return false
}

func isUse(f *feature) bool { return len(f.elem) > 0 && f.elem[0] == "use" }

func runPairs(fam string) func(x *X) {
	return pairDocs(fam, func(x *X, root *model.Node) { x.conform(root, svg.IgnoreErrorMode) })
}

// pairDocs hands the documents to check.
func pairDocs(families string, check func(x *X, root *model.Node)) func(x *X) {
	return func(x *X) {
		fam := families
		if strings.HasPrefix(fam, "+") && x.Thorough {
			fam = "" // all of them
		}
		E := func() *feature { return elemFeatures[x.Choose(len(elemFeatures))] }
		A := func() *feature { return attrFeatures[x.Choose(len(attrFeatures))] }
		want := func(fs ...*feature) {
			if !famOf(fam, fs...) {
				x.Skip()
			}
		}
		line := func() *model.Node { return model.E("line", "x2", "31", "y2", "32") }
		root := pairRoot()
		switch x.Choose(11) {
		case 0: // an attribute on any element, and what comes after it
			e := E()
			a := A()
			want(e, a)
			if e.elem == nil || clash(e2a(e), a) {
				x.Skip()
			}
			root.Add(a.on(e.node()), line(), model.E("use", "href", "#d2"))
		case 1: // two elements side by side or one inside the other
			e := E()
			f := E()
			want(e, f)
			switch k := x.Choose(4); {
			case k == 0:
				root.Add(e.node(), f.node())
			case k == 1:
				root.Add(model.E("g", "fill", "red", "transform", "scale(2)").Add(e.node()), f.node(), line())
			case e.elem == nil || isUse(e) || strings.HasSuffix(e.elem[0], "Gradient") || e.elem[0] == "title" || e.elem[0] == "desc":
				x.Skip()
			case k == 2:
				root.Add(e.node().Add(f.node()), line())
			case k == 3:
				root.Add(model.E("g", "opacity", ".5").Add(e.node().Add(f.node(), line()), line()))
			}
		case 2: // three elements in a row
			if fam != "" && fam != "o" || families[0] == '+' {
				x.Skip()
			}
			e := E()
			f := E()
			g := E()
			root.Add(e.node(), f.node(), g.node())
		case 3: // two attributes on one element
			a := A()
			b := A()
			want(a, b)
			if clash(a, b) {
				x.Skip()
			}
			e := model.E(x.Pick("line", "g", "use"))
			switch e.Name {
			case "line":
				e.Set("x2", "5")
			case "use":
				e.Set("href", "#d2")
			}
			b.on(a.on(e))
			if e.Name == "g" {
				e.Add(line())
			}
			root.Add(e, line())
		case 4: // parent and child
			a := A()
			b := A()
			want(a, b)
			p := a.on(model.E(x.Pick("g", "svg", "line", "text")))
			root.Add(p.Add(b.on(line())), line())
		case 5: // siblings
			a := A()
			b := A()
			want(a, b)
			e := a.on(model.E(x.Pick("line", "g", "defs", "mask", "text"))).Add(model.E("line", "y2", "3"))
			root.Add(model.E("g").Add(e, b.on(line())), line())
		case 6: // a use and its definition
			a := A()
			b := A()
			want(a, b)
			if setsID(a) || setsID(b) || len(b.attrs) > 0 && b.attrs[0] == "id" {
				x.Skip()
			}
			if !strings.Contains(fam, "i") && x.Choose(2) == 1 {
				x.Skip()
			}
			d := b.on(model.E("g", "id", "v")).Add(line(), model.E("circle", "r", "3"))
			root.Add(model.E("defs").Add(d), a.on(model.E("use", "href", "#v", "x", "2")), line())
		case 7: // mask content
			e := E()
			a := A()
			want(e, a)
			if e.elem == nil || clash(e2a(e), a) {
				x.Skip()
			}
			m := a.on(model.E("mask", "id", "mm"))
			if len(a.attrs) > 0 && a.attrs[0] == "id" {
				m = model.E("mask", "id", "mm")
			}
			root.Add(m.Add(e.node(), line()), line())
		case 8: // definitions
			e := E()
			a := A()
			want(e, a)
			if e.elem == nil || clash(e2a(e), a) {
				x.Skip()
			}
			root.Add(a.on(model.E("defs")).Add(model.E("g", "id", "w").Add(e.node(), line())), model.E("use", "href", "#w", "y", "3"), line())
		case 9: // three levels
			a := A()
			b := attrFeatures[x.Choose(len(attrFeatures))]
			if x.Choose(8) > 0 && !x.Thorough {
				x.Skip()
			}
			want(a, b)
			c := attrFeatures[x.Choose(len(attrFeatures)/3)*3]
			root.Add(a.on(model.E("g")).Add(b.on(model.E("g")).Add(c.on(line()), line()), line()), line())
		case 10: // root
			e := E()
			a := A()
			want(e, a)
			if clash(e2a(e), a) {
				x.Skip()
			}
			a.on(root)
			root.Add(e.node(), line())
		}
		check(x, root)
	}
}

// e2a are the attributes of an element
func e2a(e *feature) *feature {
	if len(e.elem) < 2 {
		return &feature{}
	}
	return &feature{attrs: e.elem[1:]}
}

func init() {
	for id, fam := range map[string]string{"C01": "p", "C02": "a", "C03": "n", "C04": "s", "C05": "u", "C06": "y", "C07": "c", "C08": "t", "C09": "i", "C10": "g", "C11": "m", "C12": "o", "C13": "x"} {
		addDrivers(id, &Driver{Name: "pairs", Quick: -1, Thorough: -1, Run: runPairs(fam), Note: "all pairs of about 58 elements and 90 attribute settings, one of them of this property's subject, on one element, nested, side by side, in definitions, masks and the root"})
	}
}

// drawPairs draws the documents with a renderer.
func drawPairs(fam string, check func(x *X, d *drawing)) func(x *X) {
	return pairDocs(fam, func(x *X, root *model.Node) {
		d := &drawing{text: root.XML(), target: model.I, opacity: 1}
		x.Desc(func() string { return d.optText + " " + d.text })
		q := x.parse(d.text, svg.IgnoreErrorMode)
		if q.err != nil {
			x.Skip() // what is wrong with it is a matter of the other properties
		}
		d.s = q.s
		if x.Bool() {
			x.withTarget(d, rect{1, 2, 30, 15})
		}
		x.State(d.text, d.optText)
		check(x, d)
	})
}

func init() {
	note := "all pairs of the same elements and attribute settings, drawn (quick: those with gradients and transforms, or masks)"
	d2 := func(x *X, d *drawing) { x.checkD2(newRecGC(), 0, d) }
	rx := func(x *X, d *drawing) { r, s := newRecDasher(); x.checkScans(r, s, d) }
	g := func(x *X, d *drawing) { x.checkGG(gg.NewContext(ggW, ggH), d, 1) }
	addDrivers("C19", &Driver{Name: "pairs", Quick: -1, Thorough: -1, Run: drawPairs("+gt", d2), Note: note})
	addDrivers("C20", &Driver{Name: "pairs", Quick: -1, Thorough: -1, Run: drawPairs("+gt", rx), Note: note})
	addDrivers("C21", &Driver{Name: "pairs", Quick: -1, Thorough: -1, Run: drawPairs("+m", g), Note: note})
	addDrivers("C23", &Driver{Name: "pairs", Quick: -1, Thorough: -1, Run: drawPairs("+m", func(x *X, d *drawing) { x.checkKept(d) }), Note: note})
}

package main

import (
	"fmt"
	"strings"
	"sync"

	"mc/model"

	"github.com/fogleman/gg"
	svg "github.com/lafriks/go-svg"
)

// ---- every feature in every context a document can put it into ----

// contexts put a node n (in, where the context has room for it, with a following line) into a document.
var contexts = []func(root, n *model.Node){
	func(root, n *model.Node) { // a used definition
		root.Add(model.E("defs").Add(model.E("g", "id", "w").Add(n)), model.E("use", "href", "#w", "x", "3"), after())
	},
	func(root, n *model.Node) { // a use of a use, the feature inside
		root.Add(model.E("defs").Add(model.E("g", "id", "w").Add(n, after()), model.E("g", "id", "w2").Add(model.E("use", "href", "#w"), after())), model.E("use", "href", "#w2", "y", "3"), after())
	},
	func(root, n *model.Node) { // a use of a use, the feature after the inner one
		root.Add(model.E("defs").Add(model.E("g", "id", "w").Add(after()), model.E("g", "id", "w2").Add(model.E("use", "href", "#w"), n)), model.E("use", "href", "#w2", "y", "3"), after())
	},
	func(root, n *model.Node) { // three uses deep
		root.Add(model.E("defs").Add(model.E("g", "id", "w").Add(n), model.E("g", "id", "w2").Add(model.E("use", "href", "#w", "fill", "lime")), model.E("g", "id", "w3").Add(model.E("use", "href", "#w2", "x", "1"), after())), model.E("use", "href", "#w3"), after())
	},
	func(root, n *model.Node) { // used several times
		root.Add(model.E("defs").Add(model.E("g", "id", "w").Add(n)), model.E("use", "href", "#w"), model.E("use", "href", "#w", "x", "3", "fill", "red"), model.E("g", "stroke", "blue").Add(model.E("use", "href", "#w")), after())
	},
	func(root, n *model.Node) { // a mask
		root.Add(model.E("mask", "id", "mm").Add(n, after()), after())
	},
	func(root, n *model.Node) { // a big mask
		root.Add(model.E("mask", "id", "mm", "x", "-9", "y", "-8", "width", "2000", "height", "3000").Add(n, after()), after())
	},
	func(root, n *model.Node) { // a small mask
		root.Add(model.E("mask", "id", "mm", "x", "10%", "y", "1", "width", "2", "height", "1").Add(n, after()), after())
	},
	func(root, n *model.Node) { // a mask in a mask in a group
		root.Add(model.E("g", "fill", "gold", "transform", "scale(3)").Add(model.E("mask", "id", "m1", "width", "50%").Add(model.E("mask", "id", "m2", "height", "7").Add(n, after()), after()), after()), after())
	},
	func(root, n *model.Node) { // after a mask in a mask
		root.Add(model.E("mask", "id", "m1", "width", "5").Add(model.E("mask", "id", "m2", "height", "700").Add(after()), n, after()), after())
	},
	func(root, n *model.Node) { // after masks of several sizes, in a group with a mask
		root.Add(model.E("mask", "id", "m1", "width", "5", "height", "6"), model.E("g", "mask", "url(#m1)", "transform", "translate(3)").Add(model.E("g", "mask", "url(#m2)").Add(n)), model.E("mask", "id", "m2", "width", "500%", "height", "600%").Add(after()), after())
	},
	func(root, n *model.Node) { // the second mask, and a masked group
		root.Add(model.E("mask", "id", "m1").Add(after()), model.E("mask", "id", "m2").Add(after(), n), model.E("g", "mask", "url(#m2)").Add(after()), after())
	},
	func(root, n *model.Node) { // in a masked group
		root.Add(model.E("mask", "id", "m1").Add(after()), model.E("g", "mask", "url(#m1)").Add(n, after()), after())
	},
	func(root, n *model.Node) { // a use in a mask
		root.Add(model.E("defs").Add(model.E("g", "id", "w").Add(n)), model.E("mask", "id", "mm").Add(model.E("use", "href", "#w")), after())
	},
	func(root, n *model.Node) { // deep
		for i := 0; i < 7; i++ {
			g := model.E("g")
			if i == 0 {
				g.Set("transform", "rotate(30)")
			}
			root.Add(g)
			if i == 3 {
				root.Add(after())
			}
			root = g
		}
		root.Add(n, after())
	},
	func(root, n *model.Node) { // late
		for i := 0; i < 4; i++ {
			root.Add(model.E("title").Add(model.T("t")), after(), model.E("path", "d", "M1 2L3 4z"))
		}
		root.Add(n, after())
	},
	func(root, n *model.Node) { // nothing filled, everything stroked
		root.Add(model.E("g", "fill", "none", "stroke", "black", "opacity", "0.5", "stroke-width", "3").Add(n, after()), after())
	},
	func(root, n *model.Node) { // mirrored
		root.Add(model.E("g", "transform", "scale(-2 3) rotate(40)").Add(n, after()), after())
	},
	func(root, n *model.Node) { // many definitions
		for i := 0; i < 3; i++ {
			id := fmt.Sprint("z", i)
			root.Add(model.E("linearGradient", "id", "l"+id).Add(model.E("stop", "offset", "0.5", "stop-color", "red"), model.E("stop", "offset", "1")), model.E("radialGradient", "id", "r"+id).Add(model.E("stop")), model.E("mask", "id", "m"+id).Add(after()), model.E("defs").Add(model.E("g", "id", "d"+id).Add(after())))
		}
		root.Add(n, after())
	},
	func(root, n *model.Node) { // after definitions in a group with a gradient for a fill
		root.Add(model.E("g", "fill", "url(#g0)").Add(model.E("defs").Add(model.E("circle", "id", "q", "r", "3")), n, model.E("use", "href", "#q")), after())
	},
	func(root, n *model.Node) { // after an element that is not supported
		root.Add(model.E("text", "x", "1").Add(model.T("t")), n, model.E("filter", "id", "f").Add(model.E("feBlend")), after())
	},
	func(root, n *model.Node) { // in an element that is not supported
		root.Add(model.E("a", "href", "#d1", "fill", "red").Add(n, after()), after())
	},
	func(root, n *model.Node) { // in a nested image
		root.Add(model.E("svg", "x", "3", "fill", "aqua").Add(n, after()), after())
	},
	func(root, n *model.Node) { // itself twice, in different surroundings
		root.Add(n, model.E("g", "fill", "red", "stroke", "lime", "stroke-dasharray", "1 2", "stroke-dashoffset", "3.4").Add(n, after()), n, after())
	},
	func(root, n *model.Node) { // with attributes before and after its own
		c := model.E(n.Name, "data-b", "many", "data-a", "1", "xml:space", "preserve", "tabindex", "3")
		c.Attrs = append(c.Attrs, n.Attrs...)
		c.Kids = n.Kids
		c.Set("hreflang", "en").Set("onclick", "f()")
		root.Add(c, after())
	},
}

func after() *model.Node { return model.E("line", "x1", "7", "x2", "31", "y2", "32") }

// roots: the user space of a document.
var contextRoots = [][]string{
	nil, {"viewBox", "-5 -7 300 20", "width", "30mm", "height", "100%"}, {"viewBox", "1000 2 3 400"}, {"width", "30", "height", "20"},
}

func runContexts(fam string, styles bool) func(x *X) {
	return contextDocs(fam, styles, func(x *X, root *model.Node) {
		mode := svg.IgnoreErrorMode
		if strings.Contains("nptagm", fam) && x.Bool() {
			mode = svg.StrictErrorMode
		}
		x.conform(root, mode)
	})
}

func contextDocs(fam string, styles bool, check func(x *X, root *model.Node)) func(x *X) {
	all := sync.OnceValue(func() []func() *model.Node { return contextItems(fam, styles) })
	return func(x *X) {
		items := all()
		r := contextRoots[x.Choose(len(contextRoots))]
		c := contexts[x.Choose(len(contexts))]
		n := items[x.Choose(len(items))]()
		root := pairRoot()
		if r != nil {
			root.Attrs = nil
			for i := 0; i < len(r); i += 2 {
				root.Set(r[i], r[i+1])
			}
		}
		c(root, n)
		check(x, root)
	}
}

func contextItems(fam string, styles bool) (items []func() *model.Node) {
	for _, e := range elemFeatures {
		if e := e; e.elem != nil && famOf(fam, e) {
			items = append(items, e.node)
		}
	}
	for _, a := range attrFeatures {
		if a := a; famOf(fam, a) && !setsID(a) {
			items = append(items, func() *model.Node { return a.on(after()) }, func() *model.Node { return a.on(model.E("g")).Add(after(), model.E("circle", "r", "4")) })
		}
	}
	if styles {
		for _, s := range richStyles {
			s := s
			items = append(items, func() *model.Node { return model.E("line", "x2", "5", s[0], s[1]) }, func() *model.Node { return model.E("line", "style", s[0]+":"+s[1], "x2", "5") })
		}
	}
	add := func(elem string, kv ...string) {
		items = append(items, func() *model.Node { return model.E(elem, kv...) })
	}
	switch fam {
	case "p": // all pairs of commands
		for _, a := range pathCmds {
			for _, b := range pathCmds {
				d, k := "M1 2", 3
				for _, c := range []string{a, b} {
					d += c
					for j := 0; j < pathArgs[strings.ToUpper(c)]; j++ {
						d += " " + argNum(k)
						k++
					}
				}
				add("path", "d", d)
			}
		}
	case "a":
		for _, rx := range arcRadii {
			for _, rot := range arcRot {
				for k, f := range []string{" 0 0 ", " 0 1 ", " 1 0 ", " 1 1 "} {
					e := arcEnd[(len(rx)+len(rot)+k)%len(arcEnd)]
					add("path", "d", fmt.Sprint("M10 12", []string{"a", "A"}[k/2], rx, " 7 ", rot, f, e[0], " ", e[1], []string{"", "l3 4", "z", "t3 4"}[k]))
				}
			}
		}
	case "n":
		for _, v := range []string{"1", "-1", "+1", ".5", "-.5", "+.5", "1e1", "1E1", "1e-1", "1.5e+1", "-1.5E-2", "007", "1.", "0.0", "-0", "1e0", "123456", "0.015625"} {
			add("line", "x1", v, "y2", "3")
			add("polyline", "points", v+","+v+" 3 "+v)
			add("polygon", "points", " "+v+" 4 5 6 "+v+" "+v+" ")
			add("path", "d", "M"+v+" 1L"+v+","+v+"h"+v)
			add("line", "x2", "3", "transform", "translate("+v+" 3)")
			add("line", "x2", "3", "stroke-dasharray", v+" 2 "+v)
		}
	case "s":
		for _, f := range [][]string{{"rect", "x", "y", "width", "height", "rx", "ry"}, {"circle", "cx", "cy", "r"}, {"ellipse", "cx", "cy", "rx", "ry"}, {"line", "x1", "y1", "x2", "y2"}} {
			for m := 0; m < 1<<(len(f)-1); m++ {
				var kv []string
				for i, a := range f[1:] {
					if m>>i&1 == 1 {
						kv = append(kv, a, []string{"3", "5", "17", "11", "4", "2"}[i])
					}
				}
				add(f[0], kv...)
			}
		}
		for n := 0; n <= 6; n++ {
			if n == 1 {
				continue // a matter of taste
			}
			p := ""
			for i := 0; i < n; i++ {
				p += " " + argNum(2*i) + "," + argNum(2*i+1)
			}
			add("polyline", "points", p)
			add("polygon", "points", p)
		}
	case "u":
		for _, a := range lengthAttrs {
			for _, u := range []string{"", "px", "cm", "mm", "pt", "in", "pc", "Q", "%"} {
				switch a[0] {
				case "rect":
					kv := []string{a[1], "5" + u}
					for _, o := range []string{"width", "height"} {
						if o != a[1] {
							kv = append(kv, o, "9")
						}
					}
					add("rect", kv...)
				case "circle", "ellipse", "line":
					add(a[0], a[1], "5"+u)
				case "use":
					add("use", "href", "#d1", a[1], "5"+u)
				case "g":
					if strings.HasSuffix(a[1], "width") || strings.HasSuffix(a[1], "offset") {
						add("line", "x2", "3", a[1], "5"+u)
					}
				}
			}
		}
	case "c":
		for _, n := range colourNames {
			add("line", "x2", "3", "fill", n)
			add("line", "x2", "3", "style", "stroke:"+strings.ToUpper(n))
		}
		for _, v := range []string{"#abc", "#ABC", "#aabbcc", "#0000", "#12345678", "rgb(1,2,3)", "rgb(1 2 3)", "rgb(10%,20%,30%)", "rgb(300,-1,0)", "rgb( 1 , 2 , 3 )", "none", "NONE", "currentColor", "#f0f", " red "} {
			add("line", "x2", "3", "fill", v)
			add("line", "x2", "3", "stroke", v, "fill", v)
			add("line", "x2", "3", "style", "fill:"+v)
		}
	case "t":
		for _, t := range append(append(append([]string{}, specialTransforms...), transformFns...), badTransforms...) {
			add("line", "x2", "3", "y1", "4", "transform", t)
			t := t
			items = append(items, func() *model.Node {
				return model.E("g", "style", "transform:"+t).Add(after(), model.E("rect", "width", "3", "height", "4"))
			})
		}
	case "g":
		for _, g := range []string{"linearGradient", "radialGradient"} {
			for _, s := range gradSettings {
				for _, user := range []bool{false, true} {
					g, s, user := g, s, user
					items = append(items, func() *model.Node {
						n := model.E(g, append([]string{"id", "gr"}, s...)...).Add(model.E("stop", "offset", "20%"), model.E("stop", "offset", "0.8", "stop-color", "olive", "stop-opacity", ".5"))
						if user {
							return model.E("g").Add(n, model.E("line", "x2", "3", "fill", "url(#gr)"), model.E("circle", "r", "3", "stroke", "url(#gr)"))
						}
						return n
					})
				}
			}
		}
	case "m":
		for _, s := range [][]string{{}, {"x", "1"}, {"y", "2"}, {"width", "3"}, {"height", "4"}, {"x", "10%", "y", "20%", "width", "30%", "height", "40%"}, {"maskUnits", "userSpaceOnUse"}, {"fill", "red"}, {"transform", "scale(2)"}, {"style", "opacity:.5"}, {"mask", "url(#k1)"}} {
			for k := 0; k < 4; k++ {
				s, k := s, k
				items = append(items, func() *model.Node {
					n := model.E("mask", append([]string{"id", "mk"}, s...)...)
					for i := 0; i < k; i++ {
						n.Add(model.E("rect", "width", fmt.Sprint(3+i), "height", "4", "fill", "white"))
					}
					return model.E("g").Add(n, model.E("line", "x2", "3", "mask", "url(#mk)"), model.E("g", "mask", "url(#mk)").Add(after()))
				})
			}
		}
	case "x":
		for _, m := range malformed {
			if m[0] != "svg" && m[0] != "stop" {
				kv := []string{m[1], m[2]}
				for _, f := range strings.Fields(malformedDefault[m[0]]) {
					if k, v, _ := strings.Cut(f, "="); k != m[1] {
						kv = append(kv, k, strings.ReplaceAll(v, "_", " "))
					}
				}
				add(m[0], kv...)
			}
		}
	}
	return
}

func init() {
	for id, fam := range map[string]string{"C01": "p", "C02": "a", "C03": "n", "C04": "s", "C05": "u", "C06": "y", "C07": "c", "C08": "t", "C09": "i", "C10": "g", "C11": "m", "C12": "o", "C13": "x"} {
		addDrivers(id, &Driver{Name: "contexts", Quick: -1, Thorough: -1, Run: runContexts(fam, id == "C06" || id == "C09"), Note: fmt.Sprintf("every element, attribute setting and value of this property's subject (a few dozen to a few hundred) in %d contexts (definitions used once, several times and 2 and 3 uses deep, masks, masked groups, deep and late in the document, mirrored, next to unsupported elements) and %d user spaces", len(contexts), len(contextRoots))})
	}
}

// drawContexts draws the documents with a renderer.
func drawContexts(fam string, check func(x *X, d *drawing)) func(x *X) {
	return contextDocs(fam, false, func(x *X, root *model.Node) {
		d := &drawing{text: root.XML(), target: model.I, opacity: 1}
		x.Desc(func() string { return d.optText + " " + d.text })
		q := x.parse(d.text, svg.IgnoreErrorMode)
		if q.err != nil {
			x.Skip() // what is wrong with it is a matter of the other properties
		}
		d.s = q.s
		if x.Bool() {
			x.withTarget(d, rect{1, 2, 30, 15})
		}
		x.State(d.text, d.optText)
		check(x, d)
	})
}

func init() {
	note := "the documents with styles, transforms and uses, gradients, or masks and shapes in those contexts and user spaces, drawn with and without a target"
	d2 := func(x *X, d *drawing) { x.checkD2(newRecGC(), 0, d) }
	rx := func(x *X, d *drawing) {
		if strings.Contains(d.text, `stroke-dasharray="1 2" stroke-dashoffset="3.4"`) {
			x.Skip() // the rounding of dashes adds up along a curve
		}
		r, s := newRecDasher()
		x.checkScans(r, s, d)
	}
	g := func(x *X, d *drawing) { x.checkGG(gg.NewContext(ggW, ggH), d, 1) }
	for _, f := range []string{"y", "ti", "g", "m"} {
		addDrivers("C19", &Driver{Name: "contexts-" + f, Quick: -1, Thorough: -1, Run: drawContexts(f, d2), Note: note})
		addDrivers("C20", &Driver{Name: "contexts-" + f, Quick: -1, Thorough: -1, Run: drawContexts(f, rx), Note: note})
		addDrivers("C21", &Driver{Name: "contexts-" + f, Quick: -1, Thorough: -1, Run: drawContexts(f, g), Note: note})
		addDrivers("C23", &Driver{Name: "contexts-" + f, Quick: -1, Thorough: -1, Run: drawContexts(f, func(x *X, d *drawing) { x.checkKept(d) }), Note: note})
	}
}

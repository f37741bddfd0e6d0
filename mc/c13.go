package main

import (
	"bytes"
	"fmt"
	"log"
	"strings"

	"mc/model"

	svg "github.com/lafriks/go-svg"
)

// dirt collects the unsupported content put in a document: what to leave out to get the clean document.
type dirt struct {
	elems map[*model.Node]bool
	attrs map[*model.Node]map[string]string // clean value, "\x00": attribute absent
	n     int                               // occurrences
}

func newDirt() *dirt {
	return &dirt{map[*model.Node]bool{}, map[*model.Node]map[string]string{}, 0}
}

func (d *dirt) clean(n *model.Node) *model.Node {
	c := *n
	c.Attrs, c.Kids = nil, nil
	for _, a := range n.Attrs {
		if v, ok := d.attrs[n][a[0]]; ok {
			if v == "\x00" {
				continue
			}
			a[1] = v
		}
		c.Attrs = append(c.Attrs, a)
	}
	for _, k := range n.Kids {
		if !d.elems[k] {
			c.Kids = append(c.Kids, d.clean(k))
		}
	}
	return &c
}

func (d *dirt) setAttr(n *model.Node, k, dirty string) {
	old, ok := n.Get(k)
	if !ok {
		old = "\x00"
		n.Set(k, dirty)
	} else {
		for i := range n.Attrs {
			if n.Attrs[i][0] == k {
				n.Attrs[i][1] = dirty
			}
		}
	}
	if d.attrs[n] == nil {
		d.attrs[n] = map[string]string{}
	}
	if _, again := d.attrs[n][k]; !again {
		d.attrs[n][k] = old
	}
}

// an unsupported element without children that count
func (x *X) badElement() *model.Node {
	n := model.E(x.Pick("text", "Rect", "clipPath", "animate", "LINEARGRADIENT"))
	switch x.Choose(3) {
	case 1:
		n.Set("fill", "teal").Set("transform", "scale(3)").Set("opacity", "0.5").Set("mask", "url(#zz)").Set("d", "M1 1L9 9").Set("points", "1 2 3 4").Set("x", "4")
	case 2:
		n.Set("id", "bad").Set("style", "stroke:red;fill-rule:evenodd").Set("width", "5").Set("height", "7").Add(model.T("some text"))
	}
	return n
}

var badKeywords = []string{"fill-rule", "stroke-linecap", "stroke-linejoin", "stroke-leadlinecap", "stroke-linegap"}

var goodKeyword = map[string]string{"fill-rule": "evenodd", "stroke-linecap": "square", "stroke-linejoin": "miter", "stroke-leadlinecap": "round", "stroke-linegap": "cubic"}

// item puts one unsupported item somewhere; mult is the number of times the element is drawn.
func (x *X) dirtyItem(d *dirt, root *model.Node, nodes []*model.Node, inDef map[*model.Node]int) {
	n := nodes[x.Choose(len(nodes))]
	mult, ok := inDef[n]
	if !ok {
		mult = 1
	}
	switch x.Choose(3) {
	case 0: // element before one of the children
		if n.Name == "stop" {
			x.Skip()
		}
		if n.Name == "defs" {
			mult = 0 // never drawn
		}
		b := x.badElement()
		d.elems[b] = true
		if n.Name == "title" {
			b.Kids = nil // its text would be part of the title
		}
		pos := x.Choose(len(n.Kids) + 1)
		n.Kids = append(n.Kids[:pos:pos], append([]*model.Node{b}, n.Kids[pos:]...)...)
		d.n += mult
	case 1: // keyword
		k := x.Pick(badKeywords...)
		if inDef[n] > 0 || n.Name == "defs" {
			// attributes of definitions are read at the definition and at every use
			mult = 1
		}
		v := x.Pick("bogus", "", "inherit", "ROUND", "round butt", goodKeyword[k]+"x")
		style, hasStyle := n.Get("style")
		switch x.Choose(4) {
		case 0:
			if _, has := n.Get(k); has {
				x.Skip()
			}
			d.setAttr(n, k, v)
		case 1:
			d.setAttr(n, "style", k+":"+v)
			if hasStyle {
				d.setAttr(n, "style", style+";"+k+": "+v)
			}
		case 2: // a declaration over a supported attribute
			if _, has := n.Get(k); has {
				x.Skip()
			}
			n.Set(k, goodKeyword[k])
			d.setAttr(n, "style", k+":"+v+";"+style)
		case 3: // an attribute under a supported declaration
			if _, has := n.Get(k); has {
				x.Skip()
			}
			d.setAttr(n, k, v)
			for i := range n.Attrs {
				if n.Attrs[i][0] == "style" {
					n.Attrs[i][1] += ";" + k + ":" + goodKeyword[k]
					hasStyle = true
				}
			}
			if hasStyle && d.attrs[n]["style"] != "" {
				x.Skip()
			}
			if !hasStyle {
				n.Set("style", k+":"+goodKeyword[k])
			}
		}
		d.n += mult
	case 2: // path command
		if n.Name != "path" {
			x.Skip()
		}
		p, _ := n.Get("d")
		segs := splitPath(p)
		pos := x.Choose(len(segs) + 1)
		bad := x.Pick("B5 6", "x", "K-1.5,2e1 3", "g\t1 2 3 4 5 6 7 ", "\u00e9 4 5", "Rr")
		d.setAttr(n, "d", strings.Join(segs[:pos], "")+bad+strings.Join(segs[pos:], ""))
		d.n += mult
	}
}

func splitPath(s string) (out []string) {
	for i := 0; i < len(s); i++ {
		c := s[i] | 0x20
		if c >= 'a' && c <= 'z' && c != 'e' {
			out = append(out, "")
		}
		if len(out) == 0 {
			out = append(out, "")
		}
		out[len(out)-1] += s[i : i+1]
	}
	return
}

func dirtyBase(k int) (root *model.Node, nodes []*model.Node, inDef map[*model.Node]int) {
	inDef = map[*model.Node]int{}
	switch k {
	case 0:
		path := model.E("path", "d", "M1 2C1 1 2 2 3 3S5 5 6 6T8 9t1 1z l 1 2", "stroke", "red")
		root = svgRoot(model.E("title").Add(model.T("a"), model.T("b")),
			model.E("g", "transform", "scale(2)", "style", "fill:lime").Add(path, model.E("rect", "width", "3", "height", "4", "rx", "1")),
			model.E("polygon", "points", "1 2 3 4 5 6"))
	case 1:
		path := model.E("path", "d", "m1 2 3 4q1 1 2 2")
		g := model.E("g", "id", "d", "stroke", "blue").Add(path, model.E("line", "x2", "7"))
		inDef[g], inDef[path], inDef[g.Kids[1]] = 2, 2, 2
		root = svgRoot(model.E("defs").Add(g), model.E("use", "href", "#d", "x", "3"), model.E("use", "href", "#d", "style", "fill:red"), model.E("line", "x1", "1"))
	case 2:
		root = svgRoot(model.E("linearGradient", "id", "l").Add(model.E("stop", "offset", "0", "stop-color", "red"), model.E("stop", "offset", "1", "stop-color", "blue")),
			model.E("mask", "id", "m").Add(model.E("path", "d", "M1 1a2 2 0 01 3 3z", "fill", "white"), model.E("circle", "r", "3")),
			model.E("line", "x1", "1", "stroke", "url(#l)", "mask", "url(#m)"))
	}
	if k == 3 {
		path := model.E("path", "d", "m1 2 3 4T1 1 2 2")
		a := model.E("g", "id", "a").Add(path)
		u := model.E("use", "href", "#a", "y", "2")
		b := model.E("g", "id", "b", "stroke", "red").Add(model.E("g").Add(u), model.E("line", "x2", "3"))
		w := model.E("use", "href", "#b")
		c := model.E("g", "id", "c").Add(w)
		inDef[a], inDef[path] = 2, 2
		inDef[b], inDef[b.Kids[0]], inDef[b.Kids[1]], inDef[u], inDef[c], inDef[w] = 1, 1, 1, 1, 1, 1
		root = svgRoot(model.E("defs").Add(a, b, c), model.E("use", "href", "#c", "x", "3"), model.E("use", "href", "#a"))
	}
	var walk func(n *model.Node)
	walk = func(n *model.Node) {
		if n.Name != "" {
			nodes = append(nodes, n)
		}
		for _, c := range n.Kids {
			walk(c)
		}
	}
	walk(root)
	return
}

var logBuf bytes.Buffer

// parseLogged parses and returns what was logged.
func (x *X) parseLogged(text string, mode svg.ErrorMode) (parsed, string) {
	logBuf.Reset()
	log.SetOutput(&logBuf)
	p := x.parse(text, mode)
	return p, logBuf.String()
}

func (x *X) checkModes(dirty, clean *model.Node, occ int, silentOK bool) {
	text := dirty.XML()
	x.Desc(func() string { return text })
	model.Visit = x.StateH
	want := model.Interpret(clean, false)
	model.Visit = nil
	if want.Err != "" || want.Unsupported > 0 {
		panic("harness: clean document has " + want.Err + fmt.Sprint(want.Unsupported) + clean.XML())
	}
	for mode := svg.IgnoreErrorMode; mode <= svg.StrictErrorMode; mode++ {
		p, l := x.parseLogged(text, mode)
		lines := strings.Count(l, "\n")
		if mode != svg.WarnErrorMode && l != "" {
			x.Failf("mode %d logged %q", mode, l)
		}
		if mode == svg.StrictErrorMode && occ > 0 {
			if p.err == nil {
				x.Failf("strict mode accepted the document")
			}
			continue
		}
		if p.err != nil {
			x.Failf("mode %d failed: %v", mode, p.err)
		}
		if mode == svg.WarnErrorMode && lines < occ {
			x.Failf("warn mode logged %d messages for %d occurrences: %q", lines, occ, l)
		}
		if mode == svg.WarnErrorMode && occ == 0 && l != "" {
			x.Failf("warn mode logged %q for a supported document", l)
		}
		if e := cmpDoc(p.s, want); e != "" {
			x.Failf("mode %d: %s", mode, e)
		}
		if mode == 0 {
			x.OutcomeH(docHash(p.s) ^ uint64(occ))
		}
	}
}

func runC13Items(n, nt int) func(x *X) {
	return func(x *X) {
		m := n
		if x.Thorough {
			m = nt
		}
		root, nodes, inDef := dirtyBase(x.Choose(4))
		d := newDirt()
		for i := 0; i < m; i++ {
			x.dirtyItem(d, root, nodes, inDef)
		}
		x.checkModes(root, d.clean(root), d.n, true)
	}
}

// documents without unsupported content, of all kinds
func runC13Clean(x *X) {
	root, nodes, _ := dirtyBase(x.Choose(4))
	m := 2
	if x.Thorough {
		m = 3
	}
	for i := 0; i < m; i++ {
		n := nodes[x.Choose(len(nodes))]
		p := styleProps[x.Choose(len(styleProps))]
		if _, ok := n.Get(p.name); ok || strings.Contains(p.vals[0], "url") {
			x.Skip()
		}
		v := p.vals[x.Choose(2)]
		n.Set(p.name, v)
	}
	x.checkModes(root, root, 0, false)
}

var malformed = [][3]string{ // element, attribute, value
	{"rect", "width", "abc"}, {"rect", "x", "1e"}, {"rect", "rx", "--1"}, {"rect", "height", ""}, {"circle", "r", "5xx"}, {"circle", "cx", "1 2"},
	{"ellipse", "ry", "NaN"}, {"line", "x1", "1.2.3"}, {"line", "y2", "Inf"}, {"polygon", "points", "1 2 3"}, {"polyline", "points", "1 2 3e"},
	{"path", "d", "M1"}, {"path", "d", "M1 2L3"}, {"path", "d", "M1 2C1 2 3 4 5"}, {"path", "d", "M1 2z3"}, {"path", "d", "M1 2Q1 2 3"}, {"path", "d", "M1 2h"}, {"path", "d", "M1 2V"},
	{"path", "d", "M1 2A1 2 3 0 1 4"}, {"path", "d", "M1 2S1 2 3"}, {"path", "d", "M1 2T1"}, {"path", "d", "M"}, {"path", "d", "M1 2 1e1e1"},
	{"g", "fill", "nocolour"}, {"g", "fill", "#12"}, {"g", "fill", ""}, {"g", "stroke", "rgb(1,2)"}, {"g", "stroke", "#ggg"}, {"g", "fill", "rgb(1,2,3"},
	{"g", "stroke-width", "wide"}, {"g", "stroke-dasharray", "1,x"}, {"g", "stroke-dashoffset", "?"}, {"g", "stroke-miterlimit", "m"},
	{"g", "opacity", "half"}, {"g", "fill-opacity", ""}, {"g", "stroke-opacity", "1,0"},
	{"g", "transform", "scale"}, {"g", "transform", "scale()"}, {"g", "transform", "rotate(1,2)"}, {"g", "transform", "translate(1,2,3)"}, {"g", "transform", "matrix(1 2 3)"}, {"g", "transform", "twist(3)"}, {"g", "transform", "skewX(1 2)"},
	{"g", "mask", "url(#m"}, {"g", "mask", "m"},
	{"svg", "viewBox", "1 2 3"}, {"svg", "viewBox", "a"}, {"svg", "width", "wide"}, {"svg", "height", "1h"},
	{"use", "x", "left"}, {"use", "href", "d"}, {"use", "href", "#nope"}, {"use", "href", ""},
	{"linearGradient", "x1", "u"}, {"linearGradient", "gradientTransform", "scale(1,2,3)"}, {"radialGradient", "fr", "v"}, {"radialGradient", "cx", ""},
	{"stop", "offset", "z"}, {"stop", "stop-color", "zz"}, {"stop", "stop-opacity", "q"},
	{"mask", "x", "1p"}, {"mask", "width", ""},
}

var malformedDefault = map[string]string{"rect": "width=4 height=4", "circle": "r=3", "ellipse": "rx=3 ry=4", "use": "href=#d", "line": "x1=3", "polygon": "points=1_2_3_4", "path": "d=M0_0", "linearGradient": "id=l", "radialGradient": "id=l", "stop": "offset=0 stop-color=red", "mask": "id=m"}

func runC13Malformed(x *X) {
	m := malformed[x.Choose(len(malformed))]
	n := model.E(m[0])
	for _, kv := range strings.Fields(malformedDefault[m[0]]) {
		k, v, _ := strings.Cut(kv, "=")
		if k != m[1] {
			n.Set(k, strings.ReplaceAll(v, "_", " "))
		}
	}
	styleable := m[0] == "g" || m[1] == "stop-color" || m[1] == "stop-opacity"
	if styleable && x.Bool() {
		if m[2] == "" {
			x.Skip()
		}
		n.Set("style", "fill-opacity:1;"+m[1]+":"+m[2])
	} else {
		n.Set(m[1], m[2])
	}
	if m[0] == "stop" {
		n = model.E("linearGradient", "id", "l").Add(n)
	}
	var root *model.Node
	def := model.E("defs").Add(model.E("line", "id", "d", "x1", "2"))
	if m[0] == "svg" {
		root = n.Add(model.E("line", "x1", "1"))
	} else {
		root = svgRoot(def, model.E("line", "x1", "1"))
		switch x.Choose(6) {
		case 0:
			root.Add(n)
		case 1:
			root.Add(model.E("g").Add(n, model.E("line")))
		case 2:
			root.Add(model.E("mask", "id", "q").Add(n))
		case 3:
			if m[0] == "use" || m[0] == "g" || strings.HasSuffix(m[0], "Gradient") || m[0] == "stop" || m[0] == "mask" {
				x.Skip()
			}
			n.Set("id", "e")
			root.Add(model.E("defs").Add(n), model.E("use", "href", "#e"))
		case 4:
			if m[0] != "g" && !strings.HasSuffix(m[0], "Gradient") && m[0] != "stop" && m[0] != "mask" {
				x.Skip()
			}
			root.Add(model.E("defs").Add(n))
		case 5:
			root.Add(n, model.E("text"))
		}
	}
	text := root.XML()
	mode := svg.ErrorMode(x.Choose(3))
	x.Desc(func() string { return text })
	x.State(text)
	p, _ := x.parseLogged(text, mode)
	if p.err == nil {
		x.Failf("mode %d accepted the malformed value", mode)
	}
	x.Outcome(p.err.Error())
}

func init() {
	register(&Property{ID: "C13", Rule: "each execution is one document parsed in all three modes",
		Assumptions: []string{"log output is observed through the standard logger"},
		Drivers: []*Driver{
			{Name: "one", Quick: -1, Thorough: -1, Run: runC13Items(1, 1), Note: "4 documents with one unsupported item of every kind at every place"},
			{Name: "two", Quick: -1, Thorough: -1, Run: runC13Items(2, 2), Note: "4 documents with all pairs of unsupported items", QuickOff: true},
			{Name: "clean", Quick: -1, Thorough: -1, Run: runC13Clean, Note: "documents without unsupported content: 2 (3) style settings of 14 properties anywhere"},
			{Name: "malformed", Quick: -1, Thorough: -1, Run: runC13Malformed, Note: "63 malformed values x placement x attribute or declaration x mode"},
		}})
}

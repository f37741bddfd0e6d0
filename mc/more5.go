package main

import (
	"fmt"
	"io"
	"log"
	"strings"

	"mc/model"

	svg "github.com/lafriks/go-svg"
	"golang.org/x/image/math/fixed"
)

// ---- C18: what the text of any list of operations says ----

// readPathText reads absolute path data of moves, lines, curves and closes.
func readPathText(s string) (p svg.Path, bad string) {
	if e := pathGrammar(s); e != "" {
		return nil, e
	}
	num := func(f float64) fixed.Int26_6 {
		if f < 0 {
			return -fixed.Int26_6(-f*64 + 0.5)
		}
		return fixed.Int26_6(f*64 + 0.5)
	}
	i := 0
	for i < len(s) {
		c := s[i]
		i++
		if strings.IndexByte(" \t\r\n,", c) >= 0 {
			continue
		}
		j := i
		for j < len(s) && (strings.IndexByte("MLHVCSQTAZ", s[j]) < 0) {
			j++
		}
		v, ok := model.NumberList(s[i:j])
		if !ok {
			return nil, "numbers of " + s
		}
		i = j
		var q []fixed.Point26_6
		for k := 0; k+1 < len(v); k += 2 {
			q = append(q, fixed.Point26_6{X: num(v[k]), Y: num(v[k+1])})
		}
		switch c {
		case 'Z':
			p = append(p, svg.OpClose{})
		case 'M', 'L':
			for k, a := range q {
				if k == 0 && c == 'M' {
					p = append(p, svg.OpMoveTo(a))
				} else {
					p = append(p, svg.OpLineTo(a))
				}
			}
		case 'Q':
			for ; len(q) > 1; q = q[2:] {
				p = append(p, svg.OpQuadTo{q[0], q[1]})
			}
		case 'C':
			for ; len(q) > 2; q = q[3:] {
				p = append(p, svg.OpCubicTo{q[0], q[1], q[2]})
			}
		default:
			return nil, fmt.Sprintf("%q: command %c stands for none of the operations", s, c)
		}
	}
	return p, ""
}

// any list of operations, also those that no path data gives
func runC18Any(n, nt int) func(x *X) {
	return func(x *X) {
		m := n
		if x.Thorough {
			m = nt
		}
		var p svg.Path
		k := fixed.Int26_6(x.Choose(2))
		pnt := func() fixed.Point26_6 { k += 3; return fixed.Point26_6{X: k*k*17 - 400, Y: 900 - k*29} }
		for i := 0; i < m; i++ {
			c := x.Choose(6)
			if c == 5 {
				break
			}
			p = append(p, []svg.Operation{svg.OpMoveTo(pnt()), svg.OpLineTo(pnt()), svg.OpQuadTo{pnt(), pnt()}, svg.OpCubicTo{pnt(), pnt(), pnt()}, svg.OpClose{}}[c])
		}
		x.Desc(func() string { return dump(p) })
		x.State(dump(p))
		before := dump(p)
		for f := 0; f < 2; f++ {
			var s string
			x.Call("printing", func() {
				if f == 0 {
					s = p.ToSVGPath()
				} else {
					s = p.String()
				}
			})
			q, e := readPathText(s)
			if e != "" {
				x.Failf("%s", e)
			}
			if e := pathOpsEqual(p, q, 1); e != "" {
				x.Failf("%q says something else: %s", s, e)
			}
			x.OutcomeH(hashStr(s))
		}
		if dump(p) != before {
			x.Failf("printing changed the path")
		}
	}
}

// ---- C10, C11: several definitions with one id; whichever counts, it is one of them ----

func (x *X) oneOf(build func(k int) *model.Node, n int, mode svg.ErrorMode) {
	text := build(-1).XML()
	x.Desc(func() string { return text })
	p := x.parse(text, mode)
	if p.err != nil {
		x.Failf("parsing failed: %v", p.err)
	}
	first := ""
	for k := 0; k < n; k++ {
		model.Visit = x.StateH
		d := model.Interpret(build(k), mode == svg.StrictErrorMode)
		model.Visit = nil
		if d.Err != "" {
			panic("harness: " + d.Err)
		}
		e := cmpDoc(p.s, d)
		if e == "" {
			x.OutcomeH(docHash(p.s))
			return
		}
		if first == "" {
			first = e
		}
	}
	x.Failf("neither of the definitions with that id: %s", first)
}

func runC10Same(x *X) {
	kinds := func() *model.Node {
		switch x.Choose(6) {
		case 0:
			return model.E("linearGradient", "id", "a").Add(model.E("stop", "offset", "0", "stop-color", "red"), model.E("stop", "offset", "1", "stop-color", "blue"))
		case 1:
			return model.E("linearGradient", "id", "a", "x1", "5", "x2", "9", "spreadMethod", "reflect", "gradientUnits", "userSpaceOnUse")
		case 2:
			return model.E("radialGradient", "id", "a", "r", "0.25", "gradientTransform", "scale(2)").Add(model.E("stop", "offset", "0.5", "stop-color", "lime", "stop-opacity", "0.5"))
		case 3:
			return model.E("radialGradient", "id", "a", "fx", "0.3", "gradientTransform", "rotate(20)")
		case 4:
			return model.E("defs").Add(model.E("linearGradient", "id", "a", "y2", "1").Add(model.E("stop", "offset", "0.25", "stop-color", "#123")))
		}
		return model.E("g", "transform", "scale(3)").Add(model.E("radialGradient", "id", "a", "cx", "0.7", "spreadMethod", "repeat").Add(model.E("stop", "offset", "1", "stop-color", "#321"), model.E("stop", "offset", "1")))
	}
	n := 2 + x.Choose(2)
	var g []*model.Node
	for i := 0; i < n; i++ {
		g = append(g, kinds())
	}
	user := model.E("line", "x2", "5", x.Pick("fill", "stroke"), "url(#a)")
	x.oneOf(func(k int) *model.Node {
		r := svgRoot()
		for i := range g {
			if k < 0 || i == k {
				r.Add(g[i])
			}
		}
		return r.Add(user)
	}, n, svg.StrictErrorMode)
}

func runC11SameID(x *X) {
	named := x.Bool()
	kinds := func(i int) *model.Node {
		m := model.E("mask")
		if named {
			m.Set("id", "a")
		}
		switch x.Choose(4) {
		case 0:
			m.Set("x", "1").Set("width", "7").Add(model.E("line", "x2", fmt.Sprint(i+1)), model.E("line", "x2", fmt.Sprint(i+2)))
		case 1:
			m.Add(model.E("rect", "width", "5", "height", "6", "fill", "red"))
		case 2:
			m.Set("y", "3").Set("height", "4")
		case 3:
			m.Set("transform", "scale(2)").Add(model.E("g", "opacity", "0.5").Add(model.E("path", "d", "M0 0h4v5z")))
		}
		if x.Bool() {
			return model.E("defs").Add(m)
		}
		return m
	}
	n := 2 + x.Choose(2)
	var g []*model.Node
	for i := 0; i < n; i++ {
		g = append(g, kinds(i))
	}
	user := model.E("line", "x2", "5")
	if named {
		user.Set("mask", "url(#a)")
	}
	x.oneOf(func(k int) *model.Node {
		r := svgRoot(model.E("line", "y2", "9"))
		for i := range g {
			if k < 0 || i == k {
				r.Add(g[i])
			}
		}
		return r.Add(user)
	}, n, svg.StrictErrorMode)
}

// ---- C10, C11: references in style declarations ----

func runC10StyleIds(x *X) {
	root := svgRoot()
	for i, id := range idForms {
		if plainID(id) {
			root.Add(model.E([]string{"linearGradient", "radialGradient"}[i%2], "id", id).Add(model.E("stop", "offset", "0", "stop-color", fmt.Sprintf("#0000%02x", i))))
		}
	}
	a, b := x.Pick(idForms...), x.Pick(idForms...)
	if !plainID(a) || !plainID(b) {
		x.Skip()
	}
	root.Add(model.E("line", "x2", "4", "style", x.Pick("", "stroke-width:3;", "opacity:0.5; ")+"fill:url(#"+a+");stroke : url(#"+b+")"+x.Pick("", ";", ";stroke-width:2")))
	x.conform(root, svg.StrictErrorMode)
}

func runC11StyleIds(x *X) {
	root := svgRoot()
	for i, id := range idForms {
		if plainID(id) && id != "none" {
			root.Add(model.E("mask", "id", id).Add(model.E("line", "x2", fmt.Sprint(i+1))))
		}
	}
	a, b := x.Pick(idForms...), x.Pick(idForms...)
	if !plainID(a) || a == "none" || !plainID(b) || b == "none" {
		x.Skip()
	}
	set := func(n *model.Node, id string) *model.Node {
		if x.Bool() {
			return n.Set("style", "stroke-width:3;mask:url(#"+id+");fill:red")
		}
		return n.Set("mask", "url(#"+id+")")
	}
	root.Add(set(model.E("g"), a).Add(set(model.E("line", "x2", "4"), b), model.E("line")))
	x.conform(root, svg.StrictErrorMode)
}

// ---- C12: name spaces ----

var foreignSpaces = []string{"http://www.w3.org/2000/svg/", "http://www.w3.org/2000/SVG", "http://www.w3.org/2000/svg#", "https://www.w3.org/2000/svg", "http://www.w3.org/2000/sv", "http://www.w3.org/2000/svgx", "http://www.w3.org/2000/", "http://w3.org/2000/svg",
	"svg", "urn:svg", "SVG", "http://www.w3.org/1999/xhtml", "http://www.w3.org/1999/xlink", "http://www.w3.org/TR/SVG", "x", "http://www.w3.org/XML/1998/namespaces", "http://www.inkscape.org/namespaces/inkscape", "http://www.w3.org/2000/svg-20000303-stylable"}

func runC12Spaces(x *X) {
	ns := foreignSpaces[x.Choose(len(foreignSpaces))]
	ownSpace := x.Choose(3)
	el := x.Pick(`<%sline x2="9"/>`, `<%srect width="5" height="6"/>`, `<%scircle r="4"/>`, `<%stitle>no</%stitle>`, `<%sdesc>no</%sdesc>`, `<%spath d="M0 0h3"/>`, `<%spolygon points="1 2 3 4"/>`,
		`<%sdefs></%sdefs>`, `<%smask id="m"></%smask>`, `<%slinearGradient id="l"></%slinearGradient>`, `<%suse href="#d"/>`, `<%sellipse rx="3" ry="4"/>`, `<%spolyline points="1 2 3 4"/>`, `<%ssvg viewBox="1 1 1 1" width="3"/>`)
	raw := ""
	switch x.Choose(3) {
	case 0:
		raw = strings.Replace(strings.ReplaceAll(el, "%s", "q:"), " ", ` xmlns:q="`+ns+`" `, 1)
		if !strings.Contains(raw, "xmlns") {
			raw = strings.Replace(raw, ">", ` xmlns:q="`+ns+`">`, 1)
		}
	case 1:
		raw = strings.ReplaceAll(el, "%s", "")
		i := strings.IndexAny(raw, " />")
		raw = raw[:i] + ` xmlns="` + ns + `"` + raw[i:]
	case 2:
		raw = `<metadata><w xmlns="` + ns + `">` + strings.ReplaceAll(el, "%s", "") + `</w></metadata>`
	}
	root := svgRoot(model.E("defs").Add(model.E("line", "id", "d", "x1", "2")))
	switch ownSpace {
	case 1:
		root.Set("xmlns", "http://www.w3.org/2000/svg")
	case 2:
		root.Set("xmlns", "http://www.w3.org/2000/svg").Set("xmlns:xlink", "http://www.w3.org/1999/xlink").Set("xmlns:svg", "http://www.w3.org/2000/svg")
	}
	r := model.R(raw, "")
	switch x.Choose(3) {
	case 0:
		root.Add(r)
	case 1:
		root.Add(model.E("g").Add(r, model.E("line", "x2", "2")))
	case 2:
		root.Add(model.E("mask", "id", "k").Add(model.E("line", "x2", "2"), r))
	}
	root.Add(model.E("line", "x2", "3"), model.E("title").Add(model.T("yes")))
	x.conform(root, svg.IgnoreErrorMode)
}

// ---- C13: malformed style values on elements of all kinds ----

func runC13Everywhere(x *X) {
	var list [][3]string
	for _, m := range malformed {
		if m[0] == "g" {
			list = append(list, m)
		}
	}
	m := list[x.Choose(len(list))]
	hosts := []string{"svg", "g", "path", "rect", "circle", "ellipse", "line", "polyline", "polygon", "use", "mask", "defs", "linearGradient", "radialGradient", "stop", "title", "desc"}
	h := hosts[x.Choose(len(hosts))]
	n := model.E(h)
	for _, kv := range strings.Fields(malformedDefault[h]) {
		k, v, _ := strings.Cut(kv, "=")
		n.Set(k, strings.ReplaceAll(v, "_", " "))
	}
	switch x.Choose(3) {
	case 0:
		n.Set(m[1], m[2])
	case 1:
		if m[2] == "" {
			x.Skip()
		}
		n.Set("style", m[1]+":"+m[2])
	case 2:
		if m[2] == "" {
			x.Skip()
		}
		n.Set("style", "fill:red;"+m[1]+" : "+m[2]+" ;stroke:blue")
	}
	root := svgRoot(model.E("defs").Add(model.E("line", "id", "d", "x1", "2")))
	switch h {
	case "svg":
		root.Attrs = append(root.Attrs, n.Attrs...)
	case "stop":
		root.Add(model.E(x.Pick("linearGradient", "radialGradient"), "id", "l").Add(n))
	default:
		root.Add(n)
	}
	root.Add(model.E("line"))
	text := root.XML()
	mode := svg.ErrorMode(x.Choose(3))
	x.Desc(func() string { return text })
	x.State(text)
	p, _ := x.parseLogged(text, mode)
	if p.err == nil {
		x.Failf("mode %d accepted the malformed value", mode)
	}
	x.Outcome(p.err.Error())
}

// ---- C09: a definition used up to n times ----

func runC09Often(x *X) {
	parts := 1 + x.Choose(3)
	attrs := [][2]string{{"opacity", "0.5"}, {"transform", "translate(3 4)"}, {"fill", "red"}, {"stroke-dasharray", "1 2 3"}, {"style", "stroke:blue;stroke-width:3"}, {"mask", "url(#m)"}, {"fill-opacity", "0.5"}, {"stroke-linejoin", "miter"}, {"fill", "url(#l)"}}
	a := attrs[x.Choose(len(attrs))]
	on := x.Choose(parts)
	d := model.E("g", "id", "a")
	top := d
	nest := x.Bool()
	for i := 0; i < parts; i++ {
		n := model.E("rect", "x", fmt.Sprint(i), "width", "5", "height", "6")
		if i == 0 {
			n = top
			if parts == 1 {
				d = model.E("line", "id", "a", "x2", "9")
				n, top = d, d
			}
		} else if nest && i+1 < parts {
			n = model.E("g")
			top.Add(n)
			top = n
		} else {
			top.Add(n)
		}
		if i == on {
			n.Set(a[0], a[1])
		}
	}
	root := svgRoot(model.E("mask", "id", "m").Add(model.E("line")), model.E("linearGradient", "id", "l").Add(model.E("stop", "offset", "0.5")), model.E("defs").Add(d))
	n := 1 + x.Choose(8)
	own := x.Choose(3)
	for i := 0; i < n; i++ {
		u := model.E("use", "href", "#a")
		if own == 1 {
			u.Set("x", fmt.Sprint(i)).Set("stroke", "lime")
		}
		if own == 2 && i%2 == 1 {
			u.Set("opacity", "0.5").Set("transform", "scale(2)")
		}
		root.Add(u)
	}
	root.Add(model.E("line"))
	x.conform(root, svg.StrictErrorMode)
}

// ---- C16: the same pieces of text in other surroundings ----

// families of documents that have a piece of text in common but different meanings for it
var families = func() (out [][]string) {
	wrap := func(s string) string { return `<svg viewBox="0 0 12 8">` + s + `</svg>` }
	d := []string{"M1 2l3 4 5 6z", "M1 2x4l3 4", "M5 5A3 2 30 1 0 9 9", "m1 1 2 2h3 4v-1zl2 2"}
	for _, p := range d {
		out = append(out, []string{
			wrap(`<path d="` + p + `"/>`), wrap(`<path d="M9 9" fill="red"/><path d="` + p + `" stroke="blue"/>`),
			wrap(`<g transform="scale(3)"><path d="` + p + `" transform="rotate(20)"/></g>`), wrap(`<defs><path id="a" d="` + p + `"/></defs><use href="#a" x="3"/><use href="#a"/>`),
			wrap(`<mask id="m"><path d="` + p + `"/></mask><path d="` + p + `" mask="url(#m)"/>`), `<svg><path d="` + p + ` L4"/></svg>`,
			wrap(`<path d="` + p + p + `"/>`),
		})
	}
	out = append(out,
		// lengths
		[]string{wrap(`<rect width="50%" height="25%" stroke-width="10%"/>`), `<svg viewBox="0 0 40 90"><rect width="50%" height="25%" stroke-width="10%"/></svg>`, `<svg><rect width="50%" height="25%" stroke-width="10%"/></svg>`, `<svg width="70" height="90"><rect width="50%" height="25%" stroke-width="10%"/></svg>`,
			wrap(`<rect width="25%" height="50%"/>`), wrap(`<circle r="50%" cx="25%" cy="50%"/>`), wrap(`<ellipse rx="50%" ry="50%"/>`), wrap(`<linearGradient id="l" x1="50%" x2="25%" y2="50%"><stop offset="50%"/></linearGradient><line stroke="url(#l)"/>`), wrap(`<mask id="m" x="50%" y="25%" width="25%" height="50%"/>`)},
		// colours
		[]string{wrap(`<rect width="3" height="3" fill="#f00"/>`), wrap(`<rect width="3" height="3" fill="#f00" opacity="0.5"/>`), wrap(`<g stroke="#f00" fill="none"><rect width="3" height="3"/></g>`), wrap(`<linearGradient id="l"><stop offset="1" stop-color="#f00"/></linearGradient><line fill="url(#l)"/>`), wrap(`<rect width="3" height="3" fill="#f000"/>`), wrap(`<rect width="3" height="3" fill="#F00"/>`), wrap(`<rect width="3" height="3" fill="#00f"/>`)},
		// transforms
		[]string{wrap(`<g transform="translate(1 2)"><line/></g>`), wrap(`<g transform="translate(1 2)"><g transform="translate(1 2)"><line/></g></g>`), wrap(`<g transform="scale(2)"><line transform="translate(1 2)"/></g>`), wrap(`<linearGradient id="l" gradientTransform="translate(1 2)"><stop/></linearGradient><line fill="url(#l)" transform="translate(1 2)"/>`), wrap(`<g transform="translate(1 2) scale(2)"><line/></g>`), wrap(`<g transform="translate(1, 2"><line/></g>`), wrap(`<g transform="translate(1 2 3)"><line/></g>`)},
		// style texts
		[]string{wrap(`<g style="fill:red;stroke-linecap:odd"><line/></g>`), wrap(`<g fill="blue" stroke="red"><line style="fill:red;stroke-linecap:odd"/></g>`), wrap(`<g style="fill:red;stroke-linecap:odd" opacity="0.5" stroke-linecap="round"><line/></g>`), wrap(`<linearGradient id="l"><stop style="fill:red;stroke-linecap:odd" offset="1"/></linearGradient><line style="fill:url(#l)"/>`), wrap(`<defs><line id="a" style="fill:red;stroke-linecap:odd"/></defs><use href="#a" fill="blue"/>`), wrap(`<mask id="m"><line style="fill:red;stroke-linecap:odd"/></mask>`)},
		// point lists
		[]string{wrap(`<polygon points="1 2 3 4 5 6"/>`), wrap(`<polyline points="1 2 3 4 5 6"/>`), wrap(`<polygon points="1 2 3 4 5"/>`), wrap(`<path d="M1 2 3 4 5 6"/>`), wrap(`<g stroke-dasharray="1 2 3 4 5 6"><polyline points="1 2 3 4 5 6"/><polygon points="1 2 3 4 5 6"/></g>`), wrap(`<g transform="matrix(1 2 3 4 5 6)"><line/></g>`), `<svg viewBox="1 2 3 4"><polygon points="1 2 3 4"/></svg>`},
		// ids
		[]string{wrap(`<defs><line id="a" x2="3"/></defs><use href="#a"/>`), wrap(`<use href="#a"/>`), wrap(`<defs><g id="a"><line x2="4"/><line x2="5"/></g></defs><use href="#a"/>`), wrap(`<linearGradient id="a"><stop/></linearGradient><line fill="url(#a)"/>`), wrap(`<radialGradient id="a"><stop offset="1"/></radialGradient><line fill="url(#a)" color="red"/>`), wrap(`<line fill="url(#a)"/>`), wrap(`<mask id="a"><line/></mask><line mask="url(#a)"/>`), wrap(`<line mask="url(#a)"/>`), wrap(`<defs><g id="a"><use href="#a"/></g></defs><use href="#a"/>`)},
		// elements and names
		[]string{wrap(`<odd><line x2="3"/></odd>`), `<svg xmlns="http://www.w3.org/2000/svg"><line x2="3"/></svg>`, `<svg xmlns="urn:q"><line x2="3"/></svg>`, wrap(`<line xmlns="urn:q" x2="3"/>`), wrap(`<q:line xmlns:q="urn:q" x2="3"/>`), wrap(`<q:line xmlns:q="http://www.w3.org/2000/svg" x2="3"/>`), `<!DOCTYPE svg><odd/>`, `<odd><line x2="3"/></odd>`, `<line x2="3"/>`},
		// dashes and texts
		[]string{wrap(`<title>a</title><desc>a</desc><line stroke="red" stroke-dasharray="3 1"/>`), wrap(`<desc>a</desc><title>b</title><line stroke="red" stroke-dasharray="3 1" stroke-dashoffset="2"/>`), wrap(`<title>a</title><g stroke-dasharray="3 1"><line stroke-dasharray="none" x2="4" stroke="red"/></g>`), wrap(`<g stroke-dasharray="3 1 2"><line stroke="blue" x2="9"/></g>`), wrap(`<title>a<line/>b</title>`), wrap(`<line stroke-dasharray="3 1x"/>`)},
	)
	return
}()

func familyCall(f, k int, mode svg.ErrorMode) call {
	return call{fmt.Sprintf("family %d %d mode %d", f, k, mode), func() string {
		s, err := svg.Parse(strings.NewReader(families[f][k]), mode)
		return result(parsed{s, err})
	}}
}

func runC16Family(n, nt int) func(x *X) {
	return func(x *X) {
		log.SetOutput(io.Discard)
		m := n
		if x.Thorough {
			m = nt
		}
		f := x.Choose(len(families))
		var hist []string
		x.Desc(func() string { return strings.Join(hist, "; ") })
		for i := 0; i < m; i++ {
			k := x.Choose(len(families[f]))
			c := familyCall(f, k, svg.ErrorMode(x.Choose(3)))
			hist = append(hist, c.name+" "+families[f][k])
			r := c.safely()
			if w := solo(c); w != r {
				x.Failf("the result differs from that in a process of its own: %s", diffAt(w, r))
			}
			x.State(strings.Join(hist, ";"))
			x.OutcomeH(hashStr(r))
		}
	}
}

func init() {
	for f := range families {
		for k := range families[f] {
			for m := svg.IgnoreErrorMode; m <= svg.StrictErrorMode; m++ {
				allCallsExtra = append(allCallsExtra, familyCall(f, k, m))
			}
		}
	}
	addDrivers("C09", &Driver{Name: "often", Quick: -1, Thorough: -1, Run: runC09Often, Note: "definitions of 1..3 elements, one of 9 settings on one of them, used 1..8 times"})
	addDrivers("C10", &Driver{Name: "same", Quick: -1, Thorough: -1, Run: runC10Same, Note: "2..3 gradients of 6 kinds with one id"},
		&Driver{Name: "styleids", Quick: -1, Thorough: -1, Run: runC10StyleIds, Note: "all pairs of 20 id spellings in style declarations"})
	addDrivers("C11", &Driver{Name: "sameid", Quick: -1, Thorough: -1, Run: runC11SameID, Note: "2..3 masks of 4 kinds at 2 places with one id, and without"},
		&Driver{Name: "styleids", Quick: -1, Thorough: -1, Run: runC11StyleIds, Note: "all pairs of 19 id spellings in attributes and style declarations"})
	addDrivers("C12", &Driver{Name: "spaces", Quick: -1, Thorough: -1, Run: runC12Spaces, Note: "14 elements in 18 other name spaces x 3 spellings x 3 places x 3 root elements"})
	addDrivers("C13", &Driver{Name: "everywhere", Quick: -1, Thorough: -1, Run: runC13Everywhere, Note: "malformed style values on 17 kinds of elements in 3 spellings and modes"})
	addDrivers("C16", &Driver{Name: "family", Quick: -1, Thorough: -1, Run: runC16Family(2, 3), Note: "all sequences of 2 (3) parses, in any error modes, of documents that share a piece of text (13 families of 6..9 documents)"})
	addDrivers("C18", &Driver{Name: "any", Quick: -1, Thorough: -1, Run: runC18Any(5, 6), Note: "all lists of up to 5 (6) operations, also without starts and with repeated closes: what their texts say"})
}

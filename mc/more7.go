package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"mc/model"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"

	"github.com/fogleman/gg"
)

// ---- C06: spellings of declarations and of dash lists ----

func titleCase(s string) string {
	b := []byte(s)
	up := true
	for i, c := range b {
		if up && c >= 'a' && c <= 'z' {
			b[i] = c - 32
		}
		up = c == '-'
	}
	return string(b)
}

func runC06Spelling(x *X) {
	p := allSettings[x.Choose(len(allSettings))]
	v := p.vals[x.Choose(len(p.vals))]
	name := []string{p.name, strings.ToUpper(p.name), titleCase(p.name), strings.ToUpper(p.name[:1]) + p.name[1:]}[x.Choose(4)]
	ws := []string{"", " ", "\n\t", "  "}
	decl := ws[x.Choose(4)] + name + ws[x.Choose(4)] + ":" + ws[x.Choose(4)] + v + ws[x.Choose(4)]
	switch x.Choose(5) {
	case 1:
		decl = "a:b;" + decl
	case 2:
		decl += ";"
	case 3:
		decl = ";;" + decl + ";c:d"
	case 4:
		decl = "nonsense;" + decl + "; ;:;=;"
	}
	root := styleRoot()
	g := model.E("g", "style", decl).Add(model.E("line", "x2", "3"))
	root.Add(g, model.E("line", "y2", "4"))
	x.conform(root, svg.StrictErrorMode)
}

func runC06DashLists(x *X) {
	n := 1 + x.Choose(4)
	seps := []string{" ", ",", ", ", " ,", "\n", "\t", " \n ", ",\n", "\r\n"}
	nums := []string{"3", "0.5", "2mm", "10%", "1e1"}
	v := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			v += seps[x.Choose(len(seps))]
		}
		if n <= 2 {
			v += nums[x.Choose(len(nums))]
		} else {
			v += nums[(i+n)%len(nums)]
		}
	}
	v = x.Pick("", " ", "\n") + v + x.Pick("", " ", "\n")
	root := styleRoot()
	l := model.E("line", "x2", "3")
	if x.Bool() {
		l.Set("stroke-dasharray", v)
	} else {
		l.Set("style", "stroke:red;stroke-dasharray:"+v)
	}
	root.Add(model.E("g", "stroke-dasharray", "9").Add(l), model.E("line", "y2", "4"))
	// a carriage return is read as a newline
	x.conformText(root, root.XML(), svg.StrictErrorMode)
}

// ---- C10: stop offsets in any order ----

func runC10Offsets(n, nt int) func(x *X) {
	return func(x *X) {
		m := n
		if x.Thorough {
			m = nt
		}
		offs := []string{"0", ".25", "70%", "1", "1.5", "-0.5", ""}
		g := model.E(x.Pick("linearGradient", "radialGradient"), "id", "g")
		k := 1 + x.Choose(m)
		for i := 0; i < k; i++ {
			s := model.E("stop")
			if o := offs[x.Choose(len(offs))]; o != "" {
				s.Set("offset", o)
			}
			g.Add(s.Set("stop-color", []string{"red", "lime", "blue", "gray", "navy"}[i]))
		}
		x.conform(svgRoot(g, model.E("line", "x2", "3", "fill", "url(#g)", "stroke", "url(#g)")), svg.StrictErrorMode)
	}
}

// ---- C11: masks on the root and other carriers ----

func runC11Carriers(x *X) {
	set := func(n *model.Node, id string) *model.Node {
		switch x.Choose(3) {
		case 1:
			n.Set("mask", "url(#"+id+")")
		case 2:
			n.Set("style", "mask:url(#"+id+")")
		}
		return n
	}
	root := set(svgRoot(), "r")
	root.Add(model.E("mask", "id", "r").Add(model.E("line", "x2", "1")))
	leaf := set(model.E(x.Pick("line", "rect", "path"), "x2", "4", "width", "3", "height", "2", "d", "M0 0L1 2"), "l")
	var mid *model.Node
	switch x.Choose(7) {
	case 0:
		mid = set(model.E("svg"), "s").Add(leaf)
	case 1:
		mid = set(model.E("g"), "s").Add(leaf)
	case 2:
		mid = set(model.E("switch"), "s").Add(leaf)
	case 3:
		mid = set(model.E("line", "x2", "2"), "s").Add(leaf)
	case 4:
		leaf.Set("id", "i")
		root.Add(model.E("defs").Add(leaf))
		mid = set(model.E("use", "href", "#i"), "s")
	case 5:
		root.Add(set(model.E("defs"), "d").Add(set(model.E("g", "id", "i"), "e").Add(leaf)))
		mid = set(model.E("use", "href", "#i"), "s")
	case 6:
		mid = set(model.E("g"), "s").Add(set(model.E("mask", "id", "inner"), "t").Add(leaf), model.E("line", "x1", "8"))
	}
	root.Add(set(model.E("g"), "o").Add(mid), model.E("line", "y2", "9"))
	x.conform(root, svg.IgnoreErrorMode)
}

// ---- C12: titles and descriptions inside any element ----

func runC12Inside(x *X) {
	hosts := []string{"svg", "g", "rect", "circle", "ellipse", "line", "polyline", "polygon", "path", "use", "linearGradient", "radialGradient", "mask", "switch", "stop"}
	root := svgRoot(model.E("defs").Add(model.E("line", "id", "d", "x2", "4")), model.E("title").Add(model.T("first")))
	k := 1 + x.Choose(2)
	for i := 0; i < k; i++ {
		name := hosts[x.Choose(len(hosts))]
		h := model.E(name)
		switch name {
		case "use":
			h.Set("href", "#d")
		case "line":
			h.Set("x2", "3")
		case "linearGradient", "radialGradient", "mask":
			h.Set("id", fmt.Sprint("h", i))
		}
		t := model.E(x.Pick("title", "desc"))
		if x.Bool() {
			t.Add(model.T(fmt.Sprint("text", i)))
		}
		h.Add(t)
		if x.Bool() {
			h.Add(model.E(x.Pick("desc", "title")).Add(model.T("more")))
		}
		if strings.HasSuffix(name, "Gradient") {
			h.Add(model.E("stop", "offset", "1"))
		}
		if name == "stop" {
			x.Skip() // what a stop contains is not decided
		}
		root.Add(h, model.T("o"))
	}
	root.Add(model.E("desc").Add(model.T("last")))
	x.conform(root, svg.IgnoreErrorMode)
}

// ---- C15: what a reader does after its failure ----

// onceReader fails once and then goes on in another way.
type onceReader struct {
	planReader
	rest   string // delivered after the failure
	failed bool
}

func (r *onceReader) Read(p []byte) (int, error) {
	if r.failed {
		if r.rest == "" {
			return 0, io.EOF
		}
		n := copy(p, r.rest)
		r.rest = r.rest[n:]
		return n, nil
	}
	n, err := r.planReader.Read(p)
	if err != nil {
		r.failed = true
	}
	return n, err
}

func runC15After(x *X) {
	d := inputDocs[x.Choose(len(inputDocs))]
	if !d.valid {
		x.Skip()
	}
	at := x.Choose(len(d.text) + 1)
	fault := []error{errBroken, io.ErrUnexpectedEOF, os.ErrDeadlineExceeded}[x.Choose(3)]
	r := &onceReader{planReader: planReader{text: d.text[:at], fail: fault, eofWith: x.Bool(), empty: x.Choose(2)}}
	if x.Bool() {
		r.rest = d.text[at:]
	}
	switch x.Choose(3) {
	case 1:
		for i := 1; i < at; i++ {
			r.cuts = append(r.cuts, i)
		}
	case 2:
		r.cuts = []int{at / 2}
	}
	mode := svg.ErrorMode(x.Choose(2) * 2)
	if mode == svg.StrictErrorMode && at > strings.Index(d.text, "<blink") && strings.Contains(d.text, "<blink") {
		x.Skip()
	}
	x.Desc(func() string {
		return fmt.Sprintf("read error %v once after %d bytes (with data %v), then %q, of %q", fault, at, r.eofWith, r.rest, d.text)
	})
	x.State(at, d.text, r.eofWith, r.empty, fault, r.rest == "")
	p := x.parseFrom(r, mode)
	if p.err == nil {
		x.Failf("a failing read went unnoticed")
	}
	if !errors.Is(p.err, fault) {
		x.Failf("the read failed with %q, Parse reported %q", fault, p.err)
	}
	x.Outcome(p.err.Error())
}

// ---- C14: references of any form ----

func runC14Refer(n, nt int) func(x *X) {
	toks := []string{"", "url(", ")", "#", "'", "\"", "a", " ", "(", "\\", "none", "URL("}
	places := []string{"mask", "fill", "stroke", "href", "xlink:href", "style=mask:", "style=fill:"}
	return func(x *X) {
		m := n
		if x.Thorough {
			m = nt
		}
		pl := places[x.Choose(len(places))]
		v := ""
		for i := 0; i < m; i++ {
			k := x.Choose(len(toks))
			if k == 0 {
				break
			}
			v += toks[k]
		}
		v = strings.ReplaceAll(v, `"`, "&quot;")
		e := "g"
		if strings.HasSuffix(pl, "href") {
			e = "use"
		}
		attr := pl + `="` + v + `"`
		if a, b, ok := strings.Cut(pl, "="); ok {
			attr = a + `="` + b + v + `"`
		}
		text := `<svg viewBox="0 0 12 8"><defs><path id="a" d="M1 1L5 3 2 6z"/></defs><mask id="a"><rect width="4" height="4" fill="white"/></mask><linearGradient id="a"><stop/></linearGradient><` + e + ` ` + attr + `><path d="M1 1L5 3 2 6z"/></` + e + `></svg>`
		x.Desc(func() string { return text })
		x.State(pl, v)
		x.survive(text, svg.IgnoreErrorMode, len(v) < 12)
	}
}

// ---- C19..C21, C23: dash offsets, and what may leak from one path into the next ----

func (x *X) drawText(text string) *drawing {
	d := &drawing{text: text}
	x.Desc(func() string { return d.optText + " " + d.text })
	q := x.parse(d.text, svg.StrictErrorMode)
	if q.err != nil {
		x.Failf("parsing failed: %v", q.err)
	}
	d.s = q.s
	d.target, d.opacity = model.I, 1
	return d
}

func (x *X) withTarget(d *drawing, r rect) {
	d.opts = append(d.opts, renderer.Target(r.X, r.Y, r.W, r.H))
	d.target = targetMap(d.s.ViewBox, r)
	d.optText += fmt.Sprint("target ", r)
}

func runDashOffsets(check func(x *X, d *drawing)) func(x *X) {
	return func(x *X) {
		dash := x.Pick("1", "3 1", "40 20", "100", "7 5 3", "300 20 1", "5000")
		off := x.Pick("0", "1", "30", "63.5", "64.5", "90", "130", "1000", "12345.5", "-1", "-70", "-90.25", "-5000", "100000")
		tr := x.Pick("", "scale(.25)", "scale(3)", "rotate(20)")
		d := x.drawText(`<svg viewBox="0 0 40 24"><path d="M2 4H38V20H5" fill="none" stroke="#102030" stroke-dasharray="` + dash + `" stroke-dashoffset="` + off + `" transform="` + tr + `"/></svg>`)
		if x.Bool() {
			x.withTarget(d, rect{1, 2, 20, 12})
		}
		x.State(d.text, d.optText)
		check(x, d)
	}
}

// leakStyles are the attributes one path may have and the next must not get.
var leakStyles = func() (out []string) {
	out = append(out, "")
	for _, a := range drawAttrs {
		for _, v := range a.vals {
			if v != "" {
				out = append(out, a.name+`="`+v+`"`)
			}
		}
	}
	for _, v := range []string{"0", "none", "0 0", "0.0001", "10000000", "5 5 5 5", "2 0", "0 3 0"} {
		out = append(out, `stroke-dasharray="`+v+`"`, `stroke-dashoffset="1" stroke-dasharray="`+v+`"`)
	}
	return append(out, `mask="url(#m1)"`, `mask="url(#m2)"`, `mask="url(#none)"`, `mask="none"`)
}()

// attribute lists of a base without what the style sets itself
func leakAttrs(base, style string) string {
	var out []string
	for _, a := range strings.Fields(base) {
		if !strings.Contains(" "+style, " "+a[:strings.Index(a, "=")+1]) {
			out = append(out, a)
		}
	}
	return strings.Join(append(out, style), " ")
}

func (x *X) leakDrawing() *drawing {
	bases := []string{`fill="#456789" stroke="#fedcba"`, `fill="#654321"`, `fill="none" stroke="#abcdef"`}
	first := leakAttrs(bases[x.Choose(3)], leakStyles[x.Choose(len(leakStyles))])
	second := leakAttrs(bases[x.Choose(3)], leakStyles[x.Choose(len(leakStyles))])
	geoms := [][2]string{{"M1 1L9 2 5 7z", "M2 7L10 6 3 2M4 1h5"}}
	g := geoms[0]
	return x.drawText(`<svg viewBox="0 0 12 8">` + drawDefs + `<path d="` + g[0] + `" ` + first + `/><path d="` + g[1] + `" ` + second + `/></svg>`)
}

func runLeaks(check func(x *X, d *drawing)) func(x *X) {
	return func(x *X) {
		d := x.leakDrawing()
		x.State(d.text)
		check(x, d)
	}
}

func runC23Leaks(x *X) {
	d := x.leakDrawing()
	b := x.Choose(3)
	x.State(d.text, b)
	whole := x.picture(d.s, b)
	back := newCanvas(b, picW, picH)
	for i := range d.s.SvgPaths {
		one := *d.s
		one.SvgPaths = d.s.SvgPaths[i : i+1 : i+1]
		c := freshOn(b, back.img)
		x.Call("drawing with "+backendNames[b], func() { c.draw(&one) })
		back = c
	}
	if back.hash() != whole {
		x.Failf("%s: drawing the paths on fresh contexts gives another picture than drawing the document", backendNames[b])
	}
	x.OutcomeH(whole)
}

// mask content with every attribute and geometries of many operations
func runC21Content(x *X) {
	geoms := append([]string{}, drawGeoms...)
	for _, n := range []int{2, 3, 5, 9, 20} {
		p := `<path d="M0 0h12v8h-12z`
		for i := 1; i < n; i++ {
			p += fmt.Sprintf("M%v %vh%v v%v h-%vz", float64(i)*11/float64(2*n), float64(i)*7/float64(2*n), 12-float64(i)*12/float64(n), 8-float64(i)*8/float64(n), 12-float64(i)*12/float64(n))
		}
		geoms = append(geoms, p+`"`)
	}
	style := leakStyles[x.Choose(len(leakStyles))]
	base := []string{`fill="#456789" stroke="#fedcba"`, `fill="white"`, `fill="none" stroke="black"`}[x.Choose(3)]
	text := `<svg viewBox="0 0 12 8">` + drawDefs + `<mask id="k">` + geoms[x.Choose(len(geoms))] + " " + leakAttrs(base, style) + `/></mask>` +
		`<rect width="12" height="8" fill="#ff0000" mask="url(#k)"/><path d="M1 1L11 7" stroke="#00ff00" transform="translate(1 .5)" mask="url(#k)"/></svg>`
	d := x.drawText(text)
	if x.Bool() {
		x.withTarget(d, rect{1, 2, 36, 20})
	}
	x.State(d.text, d.optText)
	x.checkGG(gg.NewContext(ggW, ggH), d, 1)
}

// ---- C22: origins and sizes of the viewBox ----

func runC22Origins(x *X) {
	org := []float64{0, -100, -20, -10, -5, -0.5, 3, 10, 500}
	size := []float64{5, 10, 20, 0.5, 100}
	vb := fmt.Sprint(org[x.Choose(9)], " ", org[x.Choose(9)], " ", size[x.Choose(5)], " ", size[x.Choose(5)])
	o := &optDraw{opacity: 1}
	o.add(x.Choose(5), []rect{{0, 0, 24, 16}, {5, 3, 6, 20}, {-4, 1, 30, 9.5}, {-50, -20, 30, 10}, {7, -9, 10, 10}}, nil)
	text := `<svg viewBox="` + vb + `"><path d="M1 1L9 2 4 7z" fill="red" stroke="blue"/></svg>`
	x.Desc(func() string { return o.text + " " + text })
	d := o.on(text, x.mustParse(text))
	x.State(o.text, text)
	x.checkOptions(o, d)
	x.checkD2(newRecGC(), 0, d)
}

func init() {
	d2 := func(x *X, d *drawing) { x.checkD2(newRecGC(), 0, d) }
	rx := func(x *X, d *drawing) { r, s := newRecDasher(); x.checkScans(r, s, d) }
	g := func(x *X, d *drawing) { x.checkGG(gg.NewContext(ggW, ggH), d, 1) }
	addDrivers("C06", &Driver{Name: "spelling", Quick: -1, Thorough: -1, Run: runC06Spelling, Note: "every value of every property declared with 4 spellings of its name, 256 kinds of white space, 5 surroundings"},
		&Driver{Name: "dashlists", Quick: -1, Thorough: -1, Run: runC06DashLists, Note: "1..4 dashes of 5 kinds with any of 9 separators between"})
	addDrivers("C10", &Driver{Name: "offsets", Quick: -1, Thorough: -1, Run: runC10Offsets(4, 5), Note: "all lists of 1..4 (5) stops of 7 offsets"})
	addDrivers("C11", &Driver{Name: "carriers", Quick: -1, Thorough: -1, Run: runC11Carriers, Note: "masks on the root, svg, g, unknown, shape, use, definition and mask elements"})
	addDrivers("C12", &Driver{Name: "inside", Quick: -1, Thorough: -1, Run: runC12Inside, Note: "titles and descriptions inside of 1..2 of 14 elements"})
	addDrivers("C14", &Driver{Name: "refer", Quick: -1, Thorough: -1, Run: runC14Refer(5, 6), Note: "all strings of <= 5 (6) of 11 pieces of references at 7 places"})
	addDrivers("C15", &Driver{Name: "after", Quick: -1, Thorough: -1, Run: runC15After, Note: "one failing read at every offset of 4 documents, after which the input ends or goes on"})
	addDrivers("C19", &Driver{Name: "offsets", Quick: -1, Thorough: -1, Run: runDashOffsets(d2), Note: "7 dash patterns x 14 offsets x 4 transforms x 2 targets"},
		&Driver{Name: "leaks", Quick: -1, Thorough: -1, Run: runLeaks(d2), Note: "all pairs of one path with one of 78 settings after another, on 3 bases each"})
	addDrivers("C20", &Driver{Name: "offsets", Quick: -1, Thorough: -1, Run: runDashOffsets(rx), Note: "7 dash patterns x 14 offsets x 4 transforms x 2 targets"},
		&Driver{Name: "leaks", Quick: -1, Thorough: -1, Run: runLeaks(rx), Note: "all pairs of one path with one of 78 settings after another, on 3 bases each"})
	addDrivers("C21", &Driver{Name: "offsets", Quick: -1, Thorough: -1, Run: runDashOffsets(g), Note: "7 dash patterns x 14 offsets x 4 transforms x 2 targets"},
		&Driver{Name: "leaks", Quick: -1, Thorough: -1, Run: runLeaks(g), Note: "all pairs of one path with one of 78 settings after another, on 3 bases each"},
		&Driver{Name: "content", Quick: -1, Thorough: -1, Run: runC21Content, Note: "masks of one of 16 shapes with one of 78 settings on 3 bases"})
	addDrivers("C22", &Driver{Name: "origins", Quick: -1, Thorough: -1, Run: runC22Origins, Note: "81 origins x 25 sizes of the viewBox x 5 targets"})
	addDrivers("C23", &Driver{Name: "leaks", Quick: -1, Thorough: -1, Run: runC23Leaks, Note: "all pairs of one path with one of 78 settings after another on 3 bases, drawn by 3 renderers, against fresh contexts"})
}

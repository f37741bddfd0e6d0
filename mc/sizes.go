package main

// Size drivers: the same oracles on documents in which one dimension (number of commands, points, levels,
// settings, definitions, stops, masks, shapes, draws) takes every small value and the neighbourhood of every
// power of two up to a bound. They decide behaviour that depends on an amount.

import (
	"fmt"
	"io"
	"log"
	"math"
	"strings"

	"mc/model"

	"github.com/fogleman/gg"
	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
	"golang.org/x/image/math/fixed"
)

// size chooses an amount up to max.
func (x *X) size(max int) int {
	var l []int
	for n := 1; n <= max; {
		l = append(l, n)
		switch {
		case n < 24:
			n++
		default:
			// next of: a power of two -1, +0, +1; a round number
			best := max
			for p := 32; p <= 1<<16; p *= 2 {
				for _, c := range []int{p - 1, p, p + 1, p + p/2, p/32*50 + 1} {
					if c > n && c < best {
						best = c
					}
				}
			}
			if n == max {
				best = max + 1
			}
			n = best
		}
	}
	return l[x.Choose(len(l))]
}

func addDrivers(id string, d ...*Driver) { registry[id].Drivers = append(registry[id].Drivers, d...) }

func runC01Long(x *X) {
	n := x.size(5000)
	form := x.Choose(3) // one letter and many groups; repeated letter; all letters in turn
	var b strings.Builder
	k := 0
	group := func(c string) {
		for i := 0; i < pathArgs[strings.ToUpper(c)]; i++ {
			b.WriteByte(' ')
			b.WriteString(argNum(k))
			k++
		}
	}
	b.WriteString("M 3 4")
	if form == 2 {
		n0 := x.Choose(len(pathCmds))
		for i := 0; i < n; i++ {
			c := pathCmds[(n0+i*7)%len(pathCmds)]
			b.WriteString(" " + c)
			group(c)
		}
	} else {
		c := x.Pick(pathCmds...)
		for i := 0; i < n; i++ {
			if i == 0 || form == 1 || c == "z" || c == "Z" {
				b.WriteString(" " + c)
			}
			group(c)
		}
	}
	b.WriteString(" t 3 4 l 1 2 z")
	x.conform(svgRoot(model.E("path", "d", b.String()), model.E("path", "d", "M1 2l3 4")), svg.StrictErrorMode)
}

func runC02Long(x *X) {
	n := x.size(600)
	rel := x.Bool()
	letters := x.Bool()
	cur := arcBeforeEnd[0]
	var b strings.Builder
	b.WriteString(arcBefore[0])
	c := map[bool]string{true: " a", false: " A"}[rel]
	for i := 0; i < n; i++ {
		if i == 0 || letters {
			b.WriteString(c)
		}
		b.WriteString(arcGroup(rel, []string{"10", "7", "15", "3"}[i%4], []string{"10", "15", "4"}[i%3], arcRot[i%len(arcRot)], i%4, arcEnd[(i*5)%4], &cur))
	}
	x.conform(svgRoot(model.E("path", "d", b.String()+"l 3 4")), svg.StrictErrorMode)
}

// starting points away from the origin, uncommon angles and extents
func runC02Far(x *X) {
	start := []pt{{X: 0, Y: 0}, {X: 1000, Y: -3000}, {X: -20000, Y: 7}, {X: 100000, Y: 100000}, {X: 0.25, Y: -0.5}}[x.Choose(5)]
	rot := x.Pick("0", "45", "-90", "-180", "270", "359", "360", "361", "720.5", "-1000", "0.5", "1e2", "89.5")
	rx := x.Pick("10", "4", "200", "3000")
	ry := x.Pick("10", "7", "900")
	end := [][2]float64{{20, 0}, {10, 10}, {-15, 5}, {0.25, 0.5}, {400, 300}, {-4000, 100}, {14, 14}, {0, 0}}[x.Choose(8)]
	rel := x.Bool()
	cur := start
	c := map[bool]string{true: " a", false: " A"}[rel]
	fl := x.Choose(4)
	x.conform(svgRoot(model.E("path", "d", fmt.Sprintf("M%v %v", start.X, start.Y)+c+arcGroup(rel, rx, ry, rot, fl, end, &cur)+"l1 1")), svg.StrictErrorMode)
}

// long spellings of numbers
func runC03Long(x *X) {
	num := func() string {
		return x.Pick("", "-", "+") + x.Pick("7", "", "0", "00", "0012", "123456") + x.Pick("", ".5", ".0", ".000001", ".12345678901234567890", ".50000000000000000000000000000001", ".") +
			x.Pick("", "e0", "E00", "e+1", "e-1", "e01", "e-02", "e-10", "e-100", "E-400", "e+0001")
	}
	s := num() + x.Pick(" 3", ",3", "-3", "+3", " .5", "-.5e1")
	list, ok := model.NumberList(s)
	if !ok || len(list) != 2 {
		x.Skip()
	}
	for _, v := range list {
		if math.Abs(v) > 1e6 {
			x.Skip()
		}
	}
	root := model.E("svg", "viewBox", s+" 9 8")
	root.Add(model.E("path", "d", "M0 0V"+s), model.E("path", "d", "M"+s+"z"), model.E("polygon", "points", s+" 8 9"), model.E("polyline", "points", "8 9 "+s))
	x.conform(root, svg.StrictErrorMode)
}

func runC03Many(x *X) {
	n := x.size(3000)
	sep := x.Pick(" ", ",", "\n", "")
	s := ""
	for i := 0; i < 2*n; i++ {
		v := []string{"-1", "-2.5", "-.5", "-3e1", "-4E-1"}[i%5]
		if sep != "" && i%2 == 0 {
			v = v[1:]
		}
		if i > 0 {
			s += sep
		}
		s += v
	}
	x.conform(svgRoot(model.E("path", "d", "M"+s+"z"), model.E("path", "d", "M1 1H"+s), model.E("polygon", "points", s+" 1 1"), model.E("polyline", "points", s+" 2 2")), svg.StrictErrorMode)
}

func runC04Points(x *X) {
	n := x.size(3000)
	closed := x.Bool()
	var b strings.Builder
	for i := 0; i < n+1; i++ {
		fmt.Fprintf(&b, "%s,%s ", argNum(2*i), argNum(2*i+1))
	}
	name := map[bool]string{true: "polygon", false: "polyline"}[closed]
	x.conform(svgRoot(model.E(name, "points", b.String()), model.E("rect", "width", "3", "height", "4")), svg.StrictErrorMode)
}

// sizes and positions of shapes over many magnitudes
func runC04Large(x *X) {
	vals := []string{"0.05", "0.5", "3", "77.7", "1234", "54321.5"}
	pos := []string{"0", "-3.25", "999", "-40000.5"}
	px, py := x.Pick(pos...), x.Pick(pos...)
	w, h := x.Pick(vals...), x.Pick(vals...)
	var n *model.Node
	switch x.Choose(5) {
	case 0:
		n = model.E("rect", "x", px, "y", py, "width", w, "height", h)
	case 1:
		n = model.E("rect", "x", px, "y", py, "width", w, "height", h, "rx", x.Pick(vals...), "ry", x.Pick(vals...))
	case 2:
		n = model.E("ellipse", "cx", px, "cy", py, "rx", w, "ry", h)
	case 3:
		n = model.E("circle", "cx", px, "cy", py, "r", w)
	case 4:
		n = model.E("line", "x1", px, "y1", py, "x2", w, "y2", h)
	}
	x.conform(svgRoot(n), svg.StrictErrorMode)
}

// many levels and many earlier siblings, each with settings
func runC06Levels(x *X) {
	n := x.size(600)
	shape := x.Choose(3)
	node := func(name string, i int) *model.Node {
		e := model.E(name)
		p := styleProps[i%len(styleProps)]
		e.Set(p.name, p.vals[i/len(styleProps)%len(p.vals)])
		q := styleProps[(i*5+3)%len(styleProps)]
		if q.name != p.name {
			e.Set(q.name, q.vals[i%len(q.vals)])
		}
		return e
	}
	line := func() *model.Node { return model.E("line", "x2", "3") }
	root := styleRoot()
	switch shape {
	case 0: // a chain, with a shape before and after every level
		top := root
		for i := 0; i < n; i++ {
			g := node("g", i)
			top.Add(g, line())
			g.Add(line())
			top = g
		}
	case 1: // siblings
		for i := 0; i < n; i++ {
			root.Add(node("g", i).Add(node("line", i+1).Set("x2", "4")), line())
		}
	case 2: // a chain that is closed before the shape
		g := line()
		for i := 0; i < n; i++ {
			g = node("g", i).Add(g)
		}
		root.Add(g, line(), node("line", n).Set("x2", "5"))
	}
	x.conform(root, svg.StrictErrorMode)
}

func runC06Dashes(x *X) {
	n := x.size(600)
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, fmt.Sprint(float64((i*7)%23)/4+0.25))
	}
	sep := x.Pick(" ", ",", ", ")
	v := strings.Join(l, sep)
	in := model.E("line", "x2", "3")
	root := svgRoot(model.E("g", "stroke-dasharray", v).Add(model.E("line", "x2", "5"), in), model.E("line", "x2", "6"))
	switch x.Choose(4) {
	case 1:
		in.Set("stroke-dasharray", "1 2")
	case 2:
		in.Set("stroke-dasharray", "none")
	case 3:
		in.Set("style", "stroke-dasharray:"+strings.Join(l, " ")+" 9")
	}
	x.conform(root, svg.StrictErrorMode)
}

func runC08Long(x *X) {
	n := x.size(400)
	fs := []string{"translate(1,2)", "rotate(10)", "scale(2 .5)", "skewX(5)", "scale(.5,2)", "rotate(-20 3 4)", "translate(-3)", "matrix(0 1 -1 0 2 1)", "skewY(-5)", "scale(-1)"}
	k := x.Choose(len(fs))
	nest := x.Choose(3)
	root := svgRoot()
	switch nest {
	case 0:
		t := ""
		for i := 0; i < n; i++ {
			t += fs[(k+i)%len(fs)] + " "
		}
		root.Add(model.E("line", "x2", "3", "transform", t))
	case 1:
		top := root
		for i := 0; i < n; i++ {
			g := model.E("g", "transform", fs[(k+i)%len(fs)])
			top.Add(g)
			top = g
			if i%16 == 15 {
				top.Add(model.E("line", "x2", "3", "transform", "scale(2)"))
			}
		}
		top.Add(model.E("line", "x2", "3"))
	case 2:
		for i := 0; i < n; i++ {
			root.Add(model.E("g", "transform", fs[(k+i)%len(fs)]).Add(model.E("line", "x2", "3")))
		}
	}
	root.Add(model.E("line", "x2", "4"))
	x.conform(root, svg.StrictErrorMode)
}

// ids of all forms; each next to ids it could be confused with
var idForms = []string{"a", "A", "ab", "a1", "1a", "a.b", "a:b", "a-b", "a_b", "ä", "a b", "a/b", "a,b", "none", "url", "aa", "a'b", "id", "line", "0", strings.Repeat("x", 64), strings.Repeat("x", 65), strings.Repeat("x", 300)}

func runC09Size(x *X) {
	n := x.size(300)
	root := svgRoot()
	line := func(i int) *model.Node { return model.E("line", "x2", fmt.Sprint(i%90+1)) }
	switch x.Choose(7) {
	case 0: // many uses
		root.Add(model.E("defs").Add(model.E("g", "id", "a", "stroke", "red").Add(line(1), line(2))))
		for i := 0; i < n; i++ {
			root.Add(model.E("use", "href", "#a", "x", fmt.Sprint(i%7), "y", fmt.Sprint(i%5)))
		}
	case 1: // many definitions
		d := model.E("defs")
		for i := 0; i < n; i++ {
			d.Add(line(i).Set("id", fmt.Sprint("d", i)))
		}
		root.Add(d)
		for i := 0; i < n; i += 3 {
			root.Add(model.E("use", "href", fmt.Sprint("#d", i)))
		}
	case 2: // one definition with many shapes
		g := model.E("g", "id", "a", "transform", "scale(2)")
		for i := 0; i < n; i++ {
			g.Add(line(i))
		}
		root.Add(model.E("defs").Add(line(3), g, line(4)), model.E("use", "href", "#a", "x", "3"), line(9))
	case 3: // nested groups in a definition
		g := line(5)
		for i := 0; i < n; i++ {
			g = model.E("g", "transform", []string{"rotate(3)", "translate(1 2)"}[i%2]).Add(g, line(i))
		}
		root.Add(model.E("defs").Add(g.Set("id", "a")), model.E("use", "href", "#a", "y", "3"), line(9))
	case 4: // uses through uses
		if n > 100 {
			x.Skip()
		}
		d := model.E("defs").Add(line(7).Set("id", "u0"))
		for i := 1; i <= n; i++ {
			d.Add(model.E("use", "id", fmt.Sprint("u", i), "href", fmt.Sprint("#u", i-1), "x", fmt.Sprint(i%3), "stroke-width", fmt.Sprint(i%5+1)))
		}
		root.Add(d, model.E("use", "href", fmt.Sprint("#u", n), "y", "2"), line(9))
	case 5: // many definition sections
		for i := 0; i < n; i++ {
			root.Add(model.E("defs", "stroke-width", "7").Add(line(i).Set("id", fmt.Sprint("d", i))), model.E("use", "href", fmt.Sprint("#d", i/2)))
		}
	case 6: // uses inside groups
		root.Add(model.E("defs").Add(line(1).Set("id", "a")))
		top := root
		for i := 0; i < n; i++ {
			g := model.E("g", "transform", []string{"rotate(3)", "translate(1 2)"}[i%2]).Add(model.E("use", "href", "#a", "x", "1"))
			top.Add(g)
			top = g
		}
	}
	x.conform(root, svg.StrictErrorMode)
}

func runC09Ids(x *X) {
	d := model.E("defs")
	for i, id := range idForms {
		d.Add(model.E("line", "x2", fmt.Sprint(i+1), "id", id))
	}
	root := svgRoot(d)
	for k := 0; k < 2; k++ {
		root.Add(model.E("use", x.Pick("href", "xlink:href"), "#"+x.Pick(idForms...)))
	}
	root.Set("xmlns:xlink", "http://www.w3.org/1999/xlink")
	x.conform(root, svg.StrictErrorMode)
}

func runC10Size(x *X) {
	n := x.size(500)
	name := x.Pick("linearGradient", "radialGradient")
	root := svgRoot()
	stop := func(i, n int) *model.Node {
		return model.E("stop", "offset", fmt.Sprint(float64(i)/float64(n)), "stop-color", fmt.Sprintf("#%06x", (i*77777)%0xffffff), "stop-opacity", fmt.Sprint(float64(i%5)/4))
	}
	switch x.Choose(3) {
	case 0: // many stops
		g := model.E(name, "id", "g")
		for i := 0; i < n; i++ {
			g.Add(stop(i, n))
		}
		root.Add(g, model.E("line", "x2", "4", "fill", "url(#g)", "stroke", "url(#g)"))
	case 1: // many gradients
		d := model.E("defs")
		for i := 0; i < n; i++ {
			d.Add(model.E(name, "id", fmt.Sprint("g", i), "gradientUnits", []string{"userSpaceOnUse", "objectBoundingBox"}[i%2], map[string]string{"linearGradient": "x2", "radialGradient": "cx"}[name], fmt.Sprintf("%d%%", i%100)).Add(stop(i, n), stop(n-1, n)))
		}
		root.Add(d)
		for i := 0; i < n; i += 2 {
			root.Add(model.E("line", "x2", "4", "fill", fmt.Sprintf("url(#g%d)", i), "stroke", fmt.Sprintf("url(#g%d)", n-1-i)))
		}
	case 2: // many references
		root.Add(model.E(name, "id", "g").Add(stop(0, 1), model.E("stop", "offset", "1")))
		for i := 0; i < n; i++ {
			root.Add(model.E("g", "fill", fmt.Sprintf("#%06x", i*991), "stroke", "navy").Add(model.E("line", "x2", "4", []string{"fill", "stroke"}[i%2], "url(#g)")))
		}
	}
	x.conform(root, svg.StrictErrorMode)
}

func plainID(id string) bool { return !strings.ContainsAny(id, "' ,") }

func runC10Ids(x *X) {
	root := svgRoot()
	for i, id := range idForms {
		if plainID(id) {
			root.Add(model.E([]string{"linearGradient", "radialGradient"}[i%2], "id", id).Add(model.E("stop", "offset", "0", "stop-color", fmt.Sprintf("#0000%02x", i))))
		}
	}
	a, b := x.Pick(idForms...), x.Pick(idForms...)
	if !plainID(a) || !plainID(b) {
		x.Skip()
	}
	root.Add(model.E("line", "x2", "4", "fill", "url(#"+a+")", "stroke", "url(#"+b+")"))
	x.conform(root, svg.StrictErrorMode)
}

func runC11Size(x *X) {
	n := x.size(300)
	root := svgRoot()
	line := func(i int) *model.Node { return model.E("line", "x2", fmt.Sprint(i%90+1)) }
	switch x.Choose(4) {
	case 0:
		for i := 0; i < n; i++ {
			root.Add(model.E("mask", "id", fmt.Sprint("m", i)).Add(line(i)))
			if i%3 == 0 {
				root.Add(line(i).Set("mask", fmt.Sprintf("url(#m%d)", i/2)))
			}
		}
	case 1:
		m := model.E("mask", "id", "m")
		for i := 0; i < n; i++ {
			m.Add(line(i).Set("fill", fmt.Sprintf("#%06x", i*991)))
		}
		root.Add(line(1), m, line(2).Set("mask", "url(#m)"))
	case 2:
		root.Add(model.E("mask", "id", "m").Add(line(1)), model.E("mask", "id", "k").Add(line(2)))
		top := root
		for i := 0; i < n; i++ {
			g := model.E("g", "mask", []string{"url(#m)", "url(#k)"}[i%2]).Add(line(i))
			top.Add(g)
			top = g
		}
		root.Add(line(3))
	case 3:
		g := line(5)
		for i := 0; i < n; i++ {
			g = model.E("g", "transform", "rotate(3)").Add(g, line(i))
		}
		root.Add(model.E("mask", "id", "m").Add(g, line(1)), line(2).Set("mask", "url(#m)"))
	}
	x.conform(root, svg.StrictErrorMode)
}

func runC11Ids(x *X) {
	root := svgRoot()
	for i, id := range idForms {
		if plainID(id) && id != "none" {
			root.Add(model.E("mask", "id", id).Add(model.E("line", "x2", fmt.Sprint(i+1))))
		}
	}
	a := x.Pick(idForms...)
	if !plainID(a) || a == "none" {
		x.Skip()
	}
	root.Add(model.E("line", "x2", "4", "mask", "url(#"+a+")"))
	x.conform(root, svg.StrictErrorMode)
}

func runC13Many(x *X) {
	n := x.size(300)
	kind := x.Choose(4)
	clean, dirty := svgRoot(), svgRoot()
	for i := 0; i < n; i++ {
		l := func() *model.Node { return model.E("line", "x2", fmt.Sprint(i%90+1)) }
		clean.Add(l())
		switch kind {
		case 0:
			dirty.Add(model.E("blink"), l())
		case 1:
			dirty.Add(model.E("blink", "class", "red").Add(l()))
		case 2:
			dirty.Add(l().Set("stroke-linecap", "wavy"))
		case 3:
			dirty.Add(model.E(fmt.Sprint("el", i)), l())
		}
	}
	x.checkModes(dirty, clean, n, true)
}

func runC15Large(x *X) {
	n := []int{50, 200, 1000, 4000}[x.Choose(4)]
	chunk := []int{1, 2, 3, 7, 100, 511, 512, 513, 1024, 4095, 4096, 4097, 8192, 65536}[x.Choose(14)]
	var b strings.Builder
	b.WriteString(`<svg viewBox="0 0 9 5"><title>` + strings.Repeat("tä", n) + `</title><path d="M0 0`)
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "l%d %d ", i%7, i%5)
	}
	b.WriteString(`"/>`)
	for i := 0; i < n/10; i++ {
		fmt.Fprintf(&b, "<g fill='#%06x'><rect width='%d' height='3'/></g><!-- c -->\n", i*991, i+1)
	}
	b.WriteString("</svg>")
	text := b.String()
	r := &evenReader{planReader: planReader{text: text, empty: x.Choose(2), eofWith: x.Bool()}, n: chunk}
	x.Desc(func() string { return fmt.Sprintf("%d bytes in chunks of %d", len(text), chunk) })
	x.State(n, chunk, r.empty, r.eofWith)
	log.SetOutput(io.Discard)
	x.deliver(r, text, svg.ErrorMode(x.Choose(3)))
}

// evenReader is a planReader with pieces of equal size.
type evenReader struct {
	planReader
	n int
}

func (r *evenReader) Read(p []byte) (int, error) {
	r.cuts = nil
	if r.pos+r.n < len(r.text) {
		r.cuts = []int{r.pos + r.n}
	}
	return r.planReader.Read(p)
}

func runC18Long(x *X) {
	n := x.size(3000)
	var p svg.Path
	k := x.Choose(5)
	p.Start(fixed.Point26_6{X: 64, Y: 128})
	pnt := func(i int) fixed.Point26_6 {
		return fixed.Point26_6{X: fixed.Int26_6((i*733)%99991 - 50000), Y: fixed.Int26_6((i*7919)%99991 - 50000)}
	}
	for i := 0; i < n; i++ {
		c := k
		if k == 4 {
			c = i % 4
		}
		switch c {
		case 0:
			p.Line(pnt(i))
		case 1:
			p.QuadBezier(pnt(i), pnt(i+1))
		case 2:
			p.CubeBezier(pnt(i), pnt(i+1), pnt(i+2))
		case 3:
			p.Stop(i%3 > 0)
			p.Start(pnt(i))
		}
	}
	x.Desc(func() string { return fmt.Sprintf("%d operations of kind %d", n, k) })
	x.State(n, k)
	x.roundTrip(p)
	x.Call("Clear", func() { p.Clear() })
	if len(p) != 0 || p.String() != "" {
		x.Failf("cleared path is %q", p.String())
	}
	p.Line(pnt(1))
	if len(p) != 1 || p[0] != svg.OpLineTo(pnt(1)) {
		x.Failf("path after Clear and Line is %q", p.String())
	}
}

// drawings with many shapes, subpaths, segments or dashes
func runDrawSize(max int, check func(x *X, d *drawing)) func(x *X) {
	return func(x *X) {
		n := x.size(max)
		t := `<svg viewBox="0 0 12 8">` + drawDefs
		switch x.Choose(6) {
		case 0:
			for i := 0; i < n; i++ {
				t += drawGeoms[i%len(drawGeoms)] + fmt.Sprintf(` fill="#%06x" stroke="#%06x" stroke-width="%v"/>`, i*991, i*7771, float64(i%5+1)/2)
			}
		case 1:
			for i := 0; i < n; i++ {
				t += drawGeoms[i%len(drawGeoms)]
				for j := 0; j < 3; j++ {
					a := drawAttrs[1+(i*3+j)%(len(drawAttrs)-1)]
					if v := a.vals[i%len(a.vals)]; v != "" && !strings.HasPrefix(v, "url") {
						t += fmt.Sprintf(` %s="%s"`, a.name, v)
					}
				}
				t += "/>"
			}
		case 2:
			t += `<path fill="#456789" stroke="#fedcba" d="`
			for i := 0; i < n; i++ {
				t += fmt.Sprintf("M%d %dl3 1 %d 2", i%9, i%5, i%3)
				if i%2 == 1 {
					t += "z"
				}
			}
			t += `"/>`
		case 3:
			t += `<path fill="none" stroke="#fedcba" fill-rule="evenodd" stroke-width="0.5" d="M1 1`
			for i := 0; i < n; i++ {
				t += []string{fmt.Sprintf("L%d %d", i%11, i%7), fmt.Sprintf("Q%d %d %d %d", i%11, i%7, i%5, i%6), fmt.Sprintf("C%d %d %d 1 7 %d", i%11, i%7, i%3, i%8)}[i%3]
			}
			t += `"/>`
		case 4:
			t += `<path fill="none" stroke="#fedcba" stroke-width="1" d="M1 1h10v6h-9" stroke-dasharray="`
			for i := 0; i < n; i++ {
				t += fmt.Sprintf("%v ", float64(i%4+2)/4)
			}
			t += `"/><path d="M1 7h9" stroke="red"/>`
		case 5:
			t += strings.Repeat(`<g transform="translate(.01 .02)">`, n) + `<rect x="1" y="1" width="4" height="3" fill="#123456" stroke="red"/>` + strings.Repeat("</g>", n) + `<rect width="2" height="3"/>`
		}
		d := &drawing{text: t + "</svg>"}
		x.Desc(func() string { return d.optText + " " + d.text })
		q := x.parse(d.text, svg.StrictErrorMode)
		if q.err != nil {
			x.Failf("parsing failed: %v", q.err)
		}
		d.s = q.s
		x.options(d.s, d)
		x.State(d.text, d.optText)
		check(x, d)
	}
}

// large and small targets
func runC22Large(x *X) {
	vals := []float64{0.5, 1, 37, 256, 1000, 4096, 20000}
	o := &optDraw{opacity: 1}
	r := rect{[]float64{0, -50, 3000}[x.Choose(3)], []float64{0, 12.5, -7000}[x.Choose(3)], vals[x.Choose(len(vals))], vals[x.Choose(len(vals))]}
	o.add(0, []rect{r}, nil)
	if k := x.Choose(3); k > 0 {
		o.add(1, []rect{r}, []float64{0.5, 0.125}[k-1:])
	}
	text := "<svg " + x.Pick(`viewBox="0 0 12 8"`, `viewBox="-300 20 1200 800"`, `viewBox="0 0 5 2.5"`, `width="1200" height="24"`) + optBody
	x.Desc(func() string { return o.text + " " + text })
	p := newPens()
	d := o.on(text, x.mustParse(text))
	x.State(text, o.text)
	x.checkOptions(o, d)
	x.checkD2(p.d2, 0, d)
}

// many draws of one document
func runC23Many(x *X) {
	n := x.size(70)
	b := x.Choose(3)
	k := x.Choose(3)
	text := `<svg viewBox="0 0 12 8">` + drawDefs + []string{
		`<rect x="1" y="1" width="8" height="6" fill="url(#U)" stroke="#00ff00" stroke-dasharray="2 3" mask="url(#m2)"/>`,
		`<path d="M1 1L9 2 5 7z" fill="url(#B)" stroke="url(#L)" opacity="0.5" transform="rotate(5)"/>`,
		`<g mask="url(#m1)"><circle cx="5" cy="4" r="3" fill="url(#R)"/></g><path d="M1 1Q5 9 9 1z" fill-rule="evenodd"/>`}[k] + `</svg>`
	s := x.mustParse(text)
	before := dump(s)
	x.Desc(func() string { return fmt.Sprintf("%d draws with %s of %s", n, backendNames[b], text) })
	x.State(n, b, k)
	want := x.fresh(text, b, "", nil)
	tg := []renderer.RenderOption{renderer.Target(1, 1, 9, 5), renderer.Opacity(0.5)}
	for i := 0; i < n; i++ {
		if i%5 == 4 {
			x.picture(s, b, tg...)
			continue
		}
		if h := x.picture(s, b); h != want {
			x.Failf("draw %d differs", i)
		}
	}
	x.unchanged(before, s, "drawing")
	x.OutcomeH(want)
}

func init() {
	addDrivers("C01", &Driver{Name: "long", Quick: -1, Thorough: -1, Run: runC01Long, Note: "amounts of commands or argument groups up to 5000 (all below 24, around powers of two), each of 18 commands and all in turn"})
	addDrivers("C02", &Driver{Name: "long", Quick: -1, Thorough: -1, Run: runC02Long, Note: "amounts of arcs up to 600"},
		&Driver{Name: "far", Quick: -1, Thorough: -1, Run: runC02Far, Note: "5 starting points x 13 rotations x 4x3 radii x 8 end points x 4 flags x A/a"})
	addDrivers("C03", &Driver{Name: "long", Quick: -1, Thorough: -1, Run: runC03Long, Note: "numbers of 3 x 6 x 7 x 11 sign, integer, fraction and exponent spellings before 6 continuations"},
		&Driver{Name: "many", Quick: -1, Thorough: -1, Run: runC03Many, Note: "amounts of numbers up to 6000, 4 separators"})
	addDrivers("C04", &Driver{Name: "points", Quick: -1, Thorough: -1, Run: runC04Points, Note: "amounts of points up to 3000"},
		&Driver{Name: "magnitudes", Quick: -1, Thorough: -1, Run: runC04Large, Note: "5 shapes x 16 positions x 6x6 sizes (x 36 corner radii) from 0.05 to 54321.5"})
	addDrivers("C06", &Driver{Name: "levels", Quick: -1, Thorough: -1, Run: runC06Levels, Note: "amounts of levels or siblings up to 600, two settings each"},
		&Driver{Name: "dashes", Quick: -1, Thorough: -1, Run: runC06Dashes, Note: "dash lists of amounts up to 600"})
	addDrivers("C08", &Driver{Name: "long", Quick: -1, Thorough: -1, Run: runC08Long, Note: "amounts of functions up to 400 in one list, nested, and on siblings"})
	addDrivers("C09", &Driver{Name: "size", Quick: -1, Thorough: -1, Run: runC09Size, Note: "amounts up to 300 of uses, definitions, shapes, levels, chained uses (100), sections"},
		&Driver{Name: "ids", Quick: -1, Thorough: -1, Run: runC09Ids, Note: "all pairs of 23 id spellings"})
	addDrivers("C10", &Driver{Name: "size", Quick: -1, Thorough: -1, Run: runC10Size, Note: "amounts up to 500 of stops, gradients, references"},
		&Driver{Name: "ids", Quick: -1, Thorough: -1, Run: runC10Ids, Note: "all pairs of 20 id spellings"})
	addDrivers("C11", &Driver{Name: "size", Quick: -1, Thorough: -1, Run: runC11Size, Note: "amounts up to 300 of masks, shapes of a mask, masked levels"},
		&Driver{Name: "ids", Quick: -1, Thorough: -1, Run: runC11Ids, Note: "19 id spellings"})
	addDrivers("C13", &Driver{Name: "many", Quick: -1, Thorough: -1, Run: runC13Many, Note: "amounts up to 300 of unsupported elements or values"})
	addDrivers("C15", &Driver{Name: "large", Quick: -1, Thorough: -1, Run: runC15Large, Note: "documents up to 40 kB x 14 chunk sizes x empty reads x end with data x error mode"})
	addDrivers("C18", &Driver{Name: "long", Quick: -1, Thorough: -1, Run: runC18Long, Note: "amounts of operations up to 3000"})
	addDrivers("C19", &Driver{Name: "size", Quick: 1, Thorough: 2, Run: runDrawSize(300, func(x *X, d *drawing) { x.checkD2(newRecGC(), 0, d) }), Note: "amounts up to 300 of shapes, subpaths, segments, dashes, levels; <= 1 (2) deviations of options"})
	addDrivers("C20", &Driver{Name: "size", Quick: 1, Thorough: 2, Run: runDrawSize(100, func(x *X, d *drawing) { r, s := newRecDasher(); x.checkScans(r, s, d) }), Note: "amounts up to 100 of shapes, subpaths, segments, dashes, levels; <= 1 (2) deviations of options"})
	addDrivers("C21", &Driver{Name: "size", Quick: 1, Thorough: 2, Run: runDrawSize(65, func(x *X, d *drawing) { x.checkGG(gg.NewContext(ggW, ggH), d, 1) }), Note: "amounts up to 65 of shapes, subpaths, segments, dashes, levels; <= 1 (2) deviations of options"})
	addDrivers("C22", &Driver{Name: "magnitudes", Quick: -1, Thorough: -1, Run: runC22Large, Note: "9 origins x 7x7 target sizes from 0.5 to 20000 x 4 root elements x 3 opacities"})
	addDrivers("C23", &Driver{Name: "many", Quick: -1, Thorough: -1, Run: runC23Many, Note: "amounts of draws up to 70 x 3 renderers x 3 documents"})
}

package model

import (
	"strings"
)

// Shape is one painted path.
type Shape struct {
	G Geom
	S Style
}

// Stop is a gradient stop.
type Stop struct {
	Off, Op float64
	C       RGB
	NoColor bool // takes the colour current at the reference
}

// Grad is a gradient.
type Grad struct {
	Radial bool
	V      [6]float64 // linear x1 y1 x2 y2; radial cx cy fx fy r fr
	User   bool       // userSpaceOnUse
	Spread string
	M      Mat
	Stops  []Stop
}

// Mask is a mask element.
type Mask struct {
	ID         string
	X, Y, W, H float64
	Shapes     []Shape
}

// Doc is the meaning of a document.
type Doc struct {
	Shapes        []Shape
	Masks         map[string]*Mask
	Titles, Descs []string
	VB            VB
	Width, Height string
	Unsupported   int    // occurrences of unsupported content
	Err           string // parsing must fail
}

type interp struct {
	d      *Doc
	strict bool
	grads  map[string]*Grad
	defs   map[string]*Node
	path   []string // ids of the uses being expanded
	rooted bool
}

type stop struct{ why string }

// Interpret gives the meaning of the document with the given root.
func Interpret(root *Node, strict bool) (d *Doc) {
	d = &Doc{Masks: map[string]*Mask{}}
	in := &interp{d: d, strict: strict, grads: map[string]*Grad{}, defs: map[string]*Node{}}
	defer func() {
		if r := recover(); r != nil {
			s, ok := r.(stop)
			if !ok {
				panic(r)
			}
			d.Err = s.why
		}
	}()
	in.element(root, Default(), &d.Shapes)
	return d
}

func (in *interp) fail(why string) { panic(stop{why}) }
func (in *interp) unsupported(why string) {
	in.d.Unsupported++
	if in.strict {
		in.fail(why)
	}
}

func (in *interp) length(s string, r Ref) float64 {
	v, ok := Length(s, in.d.VB, r)
	if !ok {
		in.fail("bad length " + s)
	}
	return v
}

func (in *interp) number(s string) float64 {
	v, ok := Length(s, VB{W: 100, H: 100}, RefW)
	if !ok {
		in.fail("bad number " + s)
	}
	return v
}

// fraction reads a number or percentage.
func (in *interp) fraction(s string) float64 {
	v, ok := Length(s, VB{W: 1, H: 1}, RefW)
	if !ok {
		in.fail("bad number " + s)
	}
	return v
}

// local is the name of an element; only the prefix svg stands for the SVG name space.
func local(n string) string { return strings.TrimPrefix(n, "svg:") }

// attr is the name of an attribute, empty for those of other name spaces.
func attr(n string) string {
	i := strings.LastIndexByte(n, ':')
	switch {
	case i < 0:
		return n
	case n[i+1:] == "href":
		return "href"
	}
	return ""
}

// decls are the style settings of an element: presentation attributes, then the style declarations that
// override them.
func decls(n *Node) (out [][2]string) {
	set := func(k, v string) {
		out = append(out, [2]string{strings.ToLower(strings.TrimSpace(k)), strings.TrimSpace(v)})
	}
	sty := ""
	for _, a := range n.Attrs {
		if k := attr(a[0]); strings.ToLower(k) == "style" {
			sty = a[1]
		} else if k != "" {
			set(k, a[1])
		}
	}
	for _, p := range strings.Split(sty, ";") {
		if k, v, ok := strings.Cut(p, ":"); ok {
			set(k, v)
		}
	}
	return out
}

var kwords = map[string][]string{
	"fill-rule":          {"evenodd", "nonzero"},
	"stroke-linejoin":    {"miter", "miter-clip", "arc-clip", "round", "arc", "bevel"},
	"stroke-linecap":     {"butt", "round", "square", "cubic", "quadratic"},
	"stroke-leadlinecap": {"butt", "round", "square", "cubic", "quadratic"},
	"stroke-linegap":     {"flat", "round", "cubic", "quadratic"},
}

func isIn(v string, l []string) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

func (in *interp) paint(v string, old Paint) Paint {
	if strings.HasPrefix(v, "url(") && strings.HasSuffix(v, ")") {
		u := strings.TrimSpace(v[4 : len(v)-1])
		if strings.HasPrefix(u, "#") {
			if g := in.grads[u[1:]]; g != nil {
				c := *g
				c.Stops = append([]Stop{}, g.Stops...)
				for i := range c.Stops {
					if c.Stops[i].NoColor {
						c.Stops[i].C = baseColour(old)
						c.Stops[i].NoColor = false
					}
				}
				return Paint{G: &c}
			}
		}
		return Paint{} // unknown reference: black
	}
	c, none, ok := Colour(v)
	if !ok {
		in.fail("bad colour " + v)
	}
	return Paint{None: none, C: c}
}

func baseColour(p Paint) RGB {
	if p.None {
		return RGB{}
	}
	if p.G != nil {
		for _, s := range p.G.Stops {
			return s.C
		}
		return RGB{}
	}
	return p.C
}

func clamp01(v float64) float64 {
	if v < 0 {
		return 0
	}
	if v > 1 {
		return 1
	}
	return v
}

func (in *interp) style(n *Node, s Style) Style {
	l := decls(n)
	for i, kv := range l {
		over := false
		for _, o := range l[i+1:] {
			over = over || o[0] == kv[0]
		}
		if over && kwords[kv[0]] == nil {
			in.setting(kv[0], kv[1], s) // overridden, but must be valid
			continue
		}
		s = in.setting(kv[0], kv[1], s)
	}
	return s
}

func (in *interp) setting(k, v string, s Style) Style {
	{
		switch k {
		case "fill":
			s.Fill = in.paint(v, s.Fill)
		case "stroke":
			s.Stroke = in.paint(v, s.Stroke)
		case "fill-rule":
			switch v {
			case "evenodd":
				s.NonZero = false
			case "nonzero":
				s.NonZero = true
			default:
				in.unsupported("fill-rule " + v)
			}
		case "stroke-linejoin", "stroke-linecap", "stroke-leadlinecap", "stroke-linegap":
			if !isIn(v, kwords[k]) {
				in.unsupported(k + " " + v)
				return s
			}
			switch k {
			case "stroke-linejoin":
				s.Join = v
			case "stroke-linecap":
				s.Cap = v
			case "stroke-leadlinecap":
				s.Lead = v
			case "stroke-linegap":
				s.Gap = v
			}
		case "stroke-miterlimit":
			s.Miter = in.number(v)
		case "stroke-width":
			s.Width = in.length(v, RefDiag)
		case "stroke-dashoffset":
			s.DashOff = in.length(v, RefDiag)
		case "stroke-dasharray":
			if v == "none" {
				s.Dash = nil
				break
			}
			var l []float64
			for _, t := range strings.FieldsFunc(v, func(r rune) bool { return r == ',' || r == ' ' || r == '\t' || r == '\n' }) {
				l = append(l, in.length(t, RefDiag))
			}
			s.Dash = l
		case "opacity":
			s.FillOp *= clamp01(in.fraction(v))
			s.StrokeOp *= clamp01(in.fraction(v))
		case "fill-opacity":
			s.FillOp *= clamp01(in.fraction(v))
		case "stroke-opacity":
			s.StrokeOp *= clamp01(in.fraction(v))
		case "transform":
			m, ok := Transform(v)
			if !ok {
				in.fail("bad transform " + v)
			}
			s.M = s.M.Mul(m)
		case "mask":
			if v == "none" || v == "" {
				break
			}
			if !strings.HasPrefix(v, "url(#") || !strings.HasSuffix(v, ")") {
				in.fail("bad mask " + v)
			}
			s.Masks = append(append([]string{}, s.Masks...), v[5:len(v)-1])
		}
	}
	return s
}

func (in *interp) text(n *Node) string {
	t := n.Text
	for _, k := range n.Kids {
		t += in.text(k)
	}
	return t
}

// within collects the texts of the elements of one name below n.
func (in *interp) within(n *Node, name string, out *[]string) {
	for _, k := range n.Kids {
		if local(k.Name) == name {
			*out = append(*out, in.text(k))
		}
		in.within(k, name, out)
	}
}

// register records the gradients, masks and identified elements of a definitions section.
// s is the style of n, which masks inside inherit.
func (in *interp) register(n *Node, s Style) {
	for _, k := range n.Kids {
		if k.Name == "" {
			continue
		}
		switch local(k.Name) {
		case "linearGradient", "radialGradient", "mask":
			in.element(k, s, nil)
			continue
		}
		in.register(k, in.style(k, s))
		if id, ok := k.Get("id"); ok && id != "" {
			in.defs[id] = k
		}
	}
}

func (in *interp) element(n *Node, base Style, out *[]Shape) {
	if n.Name == "" {
		return
	}
	s := in.style(n, base)
	in.draw(n, s, out, func() {
		for _, k := range n.Kids {
			in.element(k, s, out)
		}
	})
}

// draw gives an element of the given style its meaning; kids does so for its children.
func (in *interp) draw(n *Node, s Style, out *[]Shape, kids func()) {
	if out != nil {
		visit(float64(len(*out)), float64(len(s.Masks)), s.M.A, s.M.B, s.M.C, s.M.D, s.M.E, s.M.F, s.FillOp, s.StrokeOp, s.Width,
			float64(s.Fill.C.R), float64(s.Stroke.C.R), float64(len(s.Dash)), attrHash(n))
	}
	emit := func(g Geom) {
		if len(g.Subs) > 0 && out != nil {
			*out = append(*out, Shape{g, s})
		}
	}
	switch local(n.Name) {
	case "svg":
		if !in.rooted {
			in.rooted = true
			in.root(n)
		}
		kids()
	case "g":
		kids()
	case "defs":
		in.register(n, s)
	case "title":
		in.d.Titles = append(in.d.Titles, in.text(n))
		in.within(n, "desc", &in.d.Descs)
	case "desc":
		in.d.Descs = append(in.d.Descs, in.text(n))
		in.within(n, "title", &in.d.Titles)
	case "linearGradient", "radialGradient":
		in.gradient(n)
	case "stop":
	case "mask":
		m := &Mask{}
		m.ID, _ = n.Get("id")
		for _, a := range n.Attrs {
			switch a[0] {
			case "x":
				m.X = in.length(a[1], RefW)
			case "y":
				m.Y = in.length(a[1], RefH)
			case "width":
				m.W = in.length(a[1], RefW)
			case "height":
				m.H = in.length(a[1], RefH)
			}
		}
		// user space of the mask's user: no surrounding transforms or masks
		ms := s
		ms.M, ms.Masks = I, nil
		for _, k := range n.Kids {
			in.element(k, ms, &m.Shapes)
		}
		in.d.Masks[m.ID] = m
	case "use":
		in.use(n, s, out)
		kids()
	case "rect", "circle", "ellipse", "line", "polyline", "polygon", "path":
		emit(in.shape(n))
		kids()
	default:
		in.unsupported("element " + n.Name)
		kids()
	}
}

func (in *interp) root(n *Node) {
	var w, h float64
	for _, a := range n.Attrs {
		switch a[0] {
		case "viewBox":
			l, ok := NumberList(a[1])
			if !ok || len(l) != 4 {
				in.fail("viewBox")
			}
			in.d.VB = VB{l[0], l[1], l[2], l[3]}
		case "width":
			in.d.Width = a[1]
			w = in.number(a[1])
		case "height":
			in.d.Height = a[1]
			h = in.number(a[1])
		}
	}
	if in.d.VB.W == 0 {
		in.d.VB.W = w
	}
	if in.d.VB.H == 0 {
		in.d.VB.H = h
	}
}

func (in *interp) use(n *Node, s Style, out *[]Shape) {
	var x, y float64
	href := ""
	for _, a := range n.Attrs {
		switch attr(a[0]) {
		case "href":
			href = a[1]
		case "x":
			x = in.length(a[1], RefW)
		case "y":
			y = in.length(a[1], RefH)
		}
	}
	if !strings.HasPrefix(href, "#") {
		in.fail("use without local reference")
	}
	t, ok := in.defs[href[1:]]
	if !ok {
		in.fail("use of unknown " + href)
	}
	if isIn(href, in.path) {
		in.fail("circular use " + href)
	}
	in.path = append(in.path, href)
	s.M = s.M.Mul(Mat{1, 0, 0, 1, x, y}) // s is a copy: the children of the use element itself are not moved
	in.instance(t, s, out)
	in.path = in.path[:len(in.path)-1]
}

// instance draws a definition: descriptive elements and nested definitions in it draw nothing.
func (in *interp) instance(n *Node, base Style, out *[]Shape) {
	if n.Name == "" {
		return
	}
	switch local(n.Name) {
	case "title", "desc", "defs", "linearGradient", "radialGradient", "mask", "stop":
		return
	}
	s := in.style(n, base)
	in.draw(n, s, out, func() {
		for _, k := range n.Kids {
			in.instance(k, s, out)
		}
	})
}

func (in *interp) points(s string) Geom {
	l, ok := NumberList(s)
	if !ok || len(l)%2 != 0 {
		in.fail("points")
	}
	if len(l) == 0 {
		return Geom{}
	}
	sp := Sub{Start: Pt{l[0], l[1]}}
	for i := 2; i+1 < len(l); i += 2 {
		sp.Segs = append(sp.Segs, Seg{Kind: 'L', P: [3]Pt{{l[i], l[i+1]}}})
	}
	return Geom{Subs: []Sub{sp}}
}

func (in *interp) shape(n *Node) Geom {
	v := map[string]float64{}
	get := func(k string, r Ref) {
		if s, ok := n.Get(k); ok {
			v[k] = in.length(s, r)
		}
	}
	switch local(n.Name) {
	case "line":
		get("x1", RefW)
		get("x2", RefW)
		get("y1", RefH)
		get("y2", RefH)
		return Geom{Subs: []Sub{{Start: Pt{v["x1"], v["y1"]}, Segs: []Seg{{Kind: 'L', P: [3]Pt{{v["x2"], v["y2"]}}}}}}}
	case "polyline":
		if s, ok := n.Get("points"); ok {
			return in.points(s)
		}
	case "polygon":
		if s, ok := n.Get("points"); ok {
			g := in.points(s)
			for i := range g.Subs {
				g.Subs[i].Closed = true
			}
			return g
		}
	case "path":
		if d, ok := n.Get("d"); ok {
			r := Path(d)
			if r.Bad {
				in.fail("path data " + d)
			}
			return r.Geom
		}
	case "circle", "ellipse":
		get("cx", RefW)
		get("cy", RefH)
		if local(n.Name) == "circle" {
			get("r", RefDiag)
			v["rx"], v["ry"] = v["r"], v["r"]
		} else {
			get("rx", RefW)
			get("ry", RefH)
		}
		return Ellipse(v["cx"], v["cy"], v["rx"], v["ry"])
	case "rect":
		get("x", RefW)
		get("y", RefH)
		get("width", RefW)
		get("height", RefH)
		get("rx", RefW)
		get("ry", RefH)
		if _, ok := n.Get("ry"); !ok {
			v["ry"] = v["rx"]
		}
		if _, ok := n.Get("rx"); !ok {
			v["rx"] = v["ry"]
		}
		return Rect(v["x"], v["y"], v["width"], v["height"], v["rx"], v["ry"])
	}
	return Geom{}
}

// Ellipse is the outline of an ellipse.
func Ellipse(cx, cy, rx, ry float64) Geom {
	if rx == 0 || ry == 0 {
		return Geom{}
	}
	e := &EllArc{C: Pt{cx, cy}, Rx: rx, Ry: ry, Delta: 6.283185307179586}
	return Geom{Outline: true, Subs: []Sub{{Start: Pt{cx + rx, cy}, Closed: true, Segs: []Seg{{Kind: 'A', P: [3]Pt{{cx + rx, cy}}, Arc: e}}}}}
}

// Rect is the outline of a (rounded) rectangle.
func Rect(x, y, w, h, rx, ry float64) Geom {
	if w == 0 || h == 0 {
		return Geom{}
	}
	if rx > w/2 {
		rx = w / 2
	}
	if ry > h/2 {
		ry = h / 2
	}
	l := func(x, y float64) Seg { return Seg{Kind: 'L', P: [3]Pt{{x, y}}} }
	if rx <= 0 || ry <= 0 {
		return Geom{Outline: true, Subs: []Sub{{Start: Pt{x, y}, Closed: true, Segs: []Seg{l(x+w, y), l(x+w, y+h), l(x, y+h)}}}}
	}
	q := 1.5707963267948966
	arc := func(cx, cy, t float64) Seg {
		e := &EllArc{C: Pt{cx, cy}, Rx: rx, Ry: ry, Th1: t, Delta: q}
		return Seg{Kind: 'A', P: [3]Pt{e.PointAt(t + q)}, Arc: e}
	}
	return Geom{Outline: true, Subs: []Sub{{Start: Pt{x + rx, y}, Closed: true, Segs: []Seg{
		l(x+w-rx, y), arc(x+w-rx, y+ry, -q), l(x+w, y+h-ry), arc(x+w-rx, y+h-ry, 0),
		l(x+rx, y+h), arc(x+rx, y+h-ry, q), l(x, y+ry), arc(x+rx, y+ry, 2*q)}}}}
}

func (in *interp) gradient(n *Node) {
	g := &Grad{M: I, Spread: "pad", Radial: local(n.Name) == "radialGradient"}
	names := []string{"x1", "y1", "x2", "y2"}
	vals := map[string]string{"x1": "0%", "y1": "0%", "x2": "100%", "y2": "0%"}
	if g.Radial {
		names = []string{"cx", "cy", "fx", "fy", "r", "fr"}
		vals = map[string]string{"cx": "50%", "cy": "50%", "r": "50%", "fr": "0%"}
	}
	for _, a := range n.Attrs {
		switch a[0] {
		case "gradientUnits":
			switch strings.TrimSpace(a[1]) {
			case "userSpaceOnUse":
				g.User = true
			case "objectBoundingBox":
				g.User = false
			}
		case "spreadMethod":
			if isIn(strings.TrimSpace(a[1]), []string{"pad", "reflect", "repeat"}) {
				g.Spread = strings.TrimSpace(a[1])
			}
		case "gradientTransform":
			m, ok := Transform(a[1])
			if !ok {
				in.fail("gradientTransform")
			}
			g.M = m
		default:
			if isIn(a[0], names) {
				vals[a[0]] = a[1]
			}
		}
	}
	if g.Radial {
		if _, ok := vals["fx"]; !ok {
			vals["fx"] = vals["cx"]
		}
		if _, ok := vals["fy"]; !ok {
			vals["fy"] = vals["cy"]
		}
	}
	refs := map[string]Ref{"x1": RefW, "x2": RefW, "cx": RefW, "fx": RefW, "y1": RefH, "y2": RefH, "cy": RefH, "fy": RefH, "r": RefDiag, "fr": RefDiag}
	vb := VB{0, 0, 1, 1}
	if g.User {
		vb = in.d.VB
	}
	for i, k := range names {
		v, ok := Length(vals[k], vb, refs[k])
		if !ok {
			in.fail("gradient " + k)
		}
		g.V[i] = v
	}
	for _, k := range n.Kids {
		if k.Name == "" {
			continue
		}
		if local(k.Name) != "stop" {
			in.unsupportedIn(k)
			continue
		}
		st := Stop{Op: 1, NoColor: true}
		for _, kv := range decls(k) {
			switch kv[0] {
			case "offset":
				st.Off = in.fraction(kv[1])
			case "stop-color":
				c, none, ok := Colour(kv[1])
				if !ok {
					in.fail("stop-color")
				}
				st.C, st.NoColor = c, none
			case "stop-opacity":
				st.Op = clamp01(in.fraction(kv[1]))
			}
		}
		g.Stops = append(g.Stops, st)
	}
	if id, ok := n.Get("id"); ok {
		in.grads[id] = g
	}
}

func (in *interp) unsupportedIn(k *Node) {
	switch local(k.Name) {
	case "title", "desc":
		in.element(k, Default(), nil)
		return
	}
	in.unsupported("element " + k.Name + " in gradient")
}

func attrHash(n *Node) float64 {
	h := uint64(len(n.Name))
	for _, a := range n.Attrs {
		for i := 0; i < len(a[1]); i++ {
			h = (h ^ uint64(a[1][i])) * 1099511628211
		}
		h = (h ^ uint64(a[0][len(a[0])-1])) * 1099511628211
	}
	return float64(h >> 11)
}

package main

import (
	"encoding/xml"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"mc/model"

	svg "github.com/lafriks/go-svg"
)

// Further drivers: malformed values by construction, entities, encodings, large inputs, magnitudes.

// ---- C13: lengths, numbers and argument counts ----

var lengthAttrs = [][2]string{
	{"rect", "x"}, {"rect", "y"}, {"rect", "width"}, {"rect", "height"}, {"rect", "rx"}, {"rect", "ry"},
	{"circle", "cx"}, {"circle", "cy"}, {"circle", "r"}, {"ellipse", "cx"}, {"ellipse", "cy"}, {"ellipse", "rx"}, {"ellipse", "ry"},
	{"line", "x1"}, {"line", "y1"}, {"line", "x2"}, {"line", "y2"}, {"use", "x"}, {"use", "y"},
	{"mask", "x"}, {"mask", "y"}, {"mask", "width"}, {"mask", "height"},
	{"linearGradient", "x1"}, {"linearGradient", "y1"}, {"linearGradient", "x2"}, {"linearGradient", "y2"},
	{"radialGradient", "cx"}, {"radialGradient", "cy"}, {"radialGradient", "r"}, {"radialGradient", "fx"}, {"radialGradient", "fy"}, {"radialGradient", "fr"},
	{"g", "stroke-width"}, {"g", "stroke-dashoffset"}, {"g", "stroke-miterlimit"}, {"g", "opacity"}, {"g", "fill-opacity"}, {"g", "stroke-opacity"},
	{"stop", "offset"}, {"stop", "stop-opacity"}, {"svg", "width"}, {"svg", "height"},
}

var badLengths = []string{"", " ", "x", "px", "%", "-", "+", ".", "e", "e5", "-.", "1e", "1e+", "1E-", ".e1", "1.2.3", "1,2", "1 2", "--1", "+-1", "-+1", "1-", "1+1", "1e1.5", "1e1e1",
	"abc", "NaN", "nan", "Inf", "-inf", "+Infinity", "1e999", "-1e999px", "0x1p4", "0X10", "0x1p4px", "0b1", "1_0", "1px1", "px1", "1 p x", "5xx", "5q", "5 em", "5ex", "5rem", "1;", "1)", "(1)", "\u0663", "\u00bd", "1\u00a0\u00a02", "1\u2009px2", "$5", "5pxpx", "%5", "1/2"}

// withLength is a document with the attribute set to v, in several places.
func (x *X) withLength(el, attr, v string) *model.Node {
	n := model.E(el)
	for _, kv := range strings.Fields(malformedDefault[el]) {
		k, w, _ := strings.Cut(kv, "=")
		if k != attr {
			n.Set(k, strings.ReplaceAll(w, "_", " "))
		}
	}
	style := (el == "g" || attr == "stop-opacity") && x.Bool()
	if style {
		if strings.Contains(v, ";") {
			x.Skip()
		}
		n.Set("style", attr+":"+v)
	} else {
		n.Set(attr, v)
	}
	if el == "svg" {
		return n.Add(model.E("line", "x1", "1"))
	}
	if el == "stop" {
		n = model.E("linearGradient", "id", "l").Add(n)
	}
	root := svgRoot(model.E("defs").Add(model.E("line", "id", "d", "x1", "2")), model.E("line", "x1", "1"))
	if x.Bool() {
		return root.Add(model.E("g").Add(n, model.E("line")))
	}
	return root.Add(n)
}

func (x *X) mustFail(root *model.Node) {
	text := root.XML()
	mode := svg.ErrorMode(x.Choose(3))
	x.Desc(func() string { return fmt.Sprintf("mode %d: %s", mode, text) })
	x.State(text)
	p, _ := x.parseLogged(text, mode)
	if p.err == nil {
		x.Failf("mode %d accepted the malformed value", mode)
	}
	x.Outcome(p.err.Error())
}

func runC13Lengths(x *X) {
	a := lengthAttrs[x.Choose(len(lengthAttrs))]
	v := badLengths[x.Choose(len(badLengths))]
	if a[0] == "stop" && v == " " {
		v = "  "
	}
	x.mustFail(x.withLength(a[0], a[1], v))
}

// argCount is the number of arguments of each command.
var argCount = map[byte]int{'M': 2, 'L': 2, 'H': 1, 'V': 1, 'C': 6, 'S': 4, 'Q': 4, 'T': 2, 'A': 7, 'Z': 0}

var transformArgs = map[string][]int{"translate": {1, 2}, "scale": {1, 2}, "rotate": {1, 3}, "skewX": {1}, "skewY": {1}, "matrix": {6}}

// argument counts that do not fit
func runC13Arity(x *X) {
	args := func(n int) string {
		s := ""
		for i := 0; i < n; i++ {
			s += []string{" 1", " 0", ",2", "-1", " 0.5"}[i%5]
		}
		return strings.TrimPrefix(s, ",")
	}
	switch x.Choose(4) {
	case 0:
		cmd := "MLHVCSQTAZ"[x.Choose(10)]
		n := x.Choose(23)
		if want := argCount[cmd]; (want == 0 && n == 0) || (want > 0 && n > 0 && n%want == 0) {
			x.Skip()
		}
		if cmd == 'A' {
			// flags of single digits
			a := ""
			for i := 0; i < n; i++ {
				a += " 1"
			}
			cmd |= byte(x.Choose(2)) << 5
			x.mustFail(svgRoot(model.E("path", "d", "M1 2"+string(cmd)+a+x.Pick("", "L3 4", "z"))))
			return
		}
		cmd |= byte(x.Choose(2)) << 5
		x.mustFail(svgRoot(model.E("path", "d", x.Pick("M1 2", "M1 2L3 4z", "M1 2q1 1 2 2 ")+string(cmd)+args(n)+x.Pick("", "L3 4", "z"))))
	case 1:
		names := []string{"translate", "scale", "rotate", "skewX", "skewY", "matrix", "turn", "translateX", ""}
		name := names[x.Choose(len(names))]
		n := x.Choose(14)
		for _, k := range transformArgs[name] {
			if k == n {
				x.Skip()
			}
		}
		f := name + "(" + strings.TrimSpace(args(n)) + ")"
		switch x.Choose(4) {
		case 1:
			f = "scale(2) " + f
		case 2:
			f += ",translate(1)"
		}
		switch x.Choose(3) {
		case 0:
			x.mustFail(svgRoot(model.E("g", "transform", f).Add(model.E("line"))))
		case 1:
			x.mustFail(svgRoot(model.E("line", "style", "transform:"+f)))
		case 2:
			x.mustFail(svgRoot(model.E("linearGradient", "id", "l", "gradientTransform", f)))
		}
	case 2:
		n := x.Choose(14)
		if n == 4 {
			x.Skip()
		}
		r := model.E("svg", "viewBox", strings.TrimSpace(args(n)))
		switch x.Choose(3) {
		case 1:
			r.Set("width", "5").Set("height", "6")
		case 2:
			r = model.E("svg", "width", "5", "viewBox", strings.TrimSpace(args(n)), "height", "6")
		}
		x.mustFail(r.Add(model.E("line")))
	case 3:
		n := 1 + 2*x.Choose(12)
		x.mustFail(svgRoot(model.E(x.Pick("polyline", "polygon"), "points", args(n))))
	}
}

// transforms that are no list of functions
func runC13Transforms(x *X) {
	parts := []string{"scale", "(", ")", "2", " ", "translate(1)"}
	n := 1 + x.Choose(6)
	if x.Thorough {
		n = 1 + x.Choose(7)
	}
	f := ""
	for i := 0; i < n; i++ {
		f += x.Pick(parts...)
	}
	if _, ok := model.Transform(f); ok {
		x.Skip()
	}
	x.mustFail(svgRoot(model.E("g", "transform", f).Add(model.E("line"))))
}

// ---- C12: entities and encodings ----

var entityNames = func() (out []string) {
	for k := range xml.HTMLEntity {
		out = append(out, k)
	}
	sort.Strings(out)
	for _, k := range []string{"nope", "AMP", "Lt", "svg", "ns_svg", "x", "#", "#x", "#xg", "#-1", "#0", "#x0", "#1", "#xFFFE", "#x110000", "#99999999999"} {
		out = append(out, k)
	}
	return
}()

func runC12Entities(x *X) {
	n := entityNames[x.Choose(len(entityNames))]
	known := map[string]string{"lt": "<", "gt": ">", "amp": "&", "quot": `"`, "apos": "'"}[n]
	place := x.Choose(4)
	e := "&" + n + ";"
	doc := ""
	switch place {
	case 0:
		doc = "<svg><title>a" + e + "b</title><line x2='1'/></svg>"
	case 1:
		doc = "<svg><title>ab</title><line x2='1' id='" + e + "'/></svg>"
	case 2:
		doc = "<svg><title>ab</title><g><rect/>" + e + "</g><line x2='1'/></svg>"
	case 3:
		doc = "<!DOCTYPE svg><svg><desc a=\"" + e + "\"/><title>ab</title><line x2='1'/></svg>"
	}
	x.Desc(func() string { return doc })
	x.State(n, place)
	p := x.parse(doc, svg.ErrorMode(x.Choose(3)))
	if known == "" {
		if p.err == nil {
			x.Failf("an undefined entity or invalid character reference was accepted")
		}
		x.Outcome(p.err.Error())
		return
	}
	if p.err != nil {
		x.Failf("parsing failed: %v", p.err)
	}
	want := "ab"
	if place == 0 {
		want = "a" + known + "b"
	}
	if len(p.s.Titles) != 1 || p.s.Titles[0] != want || len(p.s.SvgPaths) != 1 {
		x.Failf("got titles %q, %d paths", p.s.Titles, len(p.s.SvgPaths))
	}
	x.Outcome(want)
}

// character references of every kind of code point
func runC12CharRefs(x *X) {
	cps := []int{9, 10, 13, 32, 33, 38, 39, 60, 62, 65, 126, 127, 128, 159, 160, 233, 255, 256, 0x3a9, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xfffd, 0x10000, 0x1f600, 0x10ffff}
	c := cps[x.Choose(len(cps))]
	f := x.Pick("&#%d;", "&#x%x;", "&#x%X;", "&#x000%x;", "&#000%d;")
	e := fmt.Sprintf(f, c)
	tag := x.Pick("title", "desc")
	doc := "<svg><" + tag + ">a" + e + e + "b</" + tag + "></svg>"
	x.Desc(func() string { return doc })
	x.State(c, f, tag)
	p := x.parse(doc, svg.StrictErrorMode)
	if p.err != nil {
		x.Failf("parsing failed: %v", p.err)
	}
	want := "a" + string(rune(c)) + string(rune(c)) + "b"
	got := append(append([]string{}, p.s.Titles...), p.s.Descriptions...)
	if len(got) != 1 || got[0] != want {
		x.Failf("text is %q, want %q", got, want)
	}
	x.Outcome(want)
}

// what some byte sequences mean in encodings of several families (from the code charts)
var encodings = []struct {
	label      string
	bytes, txt string
}{
	{"utf-8", "\u00e9\u20ac", "\u00e9\u20ac"}, {"UTF8", "\u0410", "\u0410"}, {"us-ascii", "abc", "abc"},
	{"iso-8859-1", "\xe9\xfc\xa7", "\u00e9\u00fc\u00a7"}, {"ISO-8859-1", "\xc4", "\u00c4"}, {"latin1", "\xe9", "\u00e9"},
	{"iso-8859-2", "\xb1\xa3", "\u0105\u0141"}, {"iso-8859-5", "\xb0\xd0", "\u0410\u0430"}, {"ISO-8859-7", "\xc1\xe1", "\u0391\u03b1"}, {"iso-8859-15", "\xa4", "\u20ac"},
	{"windows-1251", "\xc0\xe0", "\u0410\u0430"}, {"windows-1252", "\x80\xe9", "\u20ac\u00e9"}, {"Windows-1257", "\xe0", "\u0105"}, {"koi8-r", "\xe1\xc1", "\u0410\u0430"}, {"ibm866", "\x80", "\u0410"}, {"macintosh", "\x8e", "\u00e9"},
	{"shift_jis", "\x82\xa0", "\u3042"}, {"euc-jp", "\xa4\xa2", "\u3042"}, {"gbk", "\xc4\xe3", "\u4f60"}, {"gb18030", "\xc4\xe3", "\u4f60"}, {"big5", "\xa7\x41", "\u4f60"}, {"euc-kr", "\xb0\xa1", "\uac00"},
}

func runC12Encodings(x *X) {
	e := encodings[x.Choose(len(encodings))]
	q := x.Pick(`"`, "'")
	n := []int{1, 2, 50, 1500, 5000}[x.Choose(5)]
	doc := "<?xml version=" + q + "1.0" + q + " encoding=" + q + e.label + q + "?>" + x.Pick("", "\n", "<!-- "+e.bytes+" -->") + "<svg><title>" + strings.Repeat(e.bytes+".", n) + "</title><line x2='1'/><desc>" + e.bytes + "</desc></svg>"
	x.Desc(func() string { return fmt.Sprintf("%.200q", doc) })
	x.State(e.label, q, n)
	p := x.parse(doc, svg.StrictErrorMode)
	if p.err != nil {
		x.Failf("parsing failed: %v", p.err)
	}
	if e1 := cmpStrings("titles", p.s.Titles, []string{strings.Repeat(e.txt+".", n)}); e1 != "" {
		x.Failf("%s", e1)
	}
	if e1 := cmpStrings("descriptions", p.s.Descriptions, []string{e.txt}); e1 != "" {
		x.Failf("%s", e1)
	}
	if len(p.s.SvgPaths) != 1 {
		x.Failf("%d paths", len(p.s.SvgPaths))
	}
	x.Outcome(e.txt)
}

// ---- C15: large inputs ----

func runC15Huge(x *X) {
	sizes := []int{1<<16 - 1, 1 << 16, 1<<16 + 1, 1e5, 1e6, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<22 + 1}
	if x.Thorough {
		sizes = append(sizes, 1e7, 1<<24, 1<<24+1, 1<<26+1)
	}
	n := sizes[x.Choose(len(sizes))]
	what := x.Choose(4)
	tail := "<line x2='3'/><title>T</title></svg>"
	head := "<svg viewBox='0 0 9 5'><line x2='2'/>"
	fill := n - len(head) - len(tail)
	body := ""
	switch what {
	case 0:
		body = strings.Repeat(" ", fill)
	case 1:
		body = "<!--" + strings.Repeat("c", fill-7) + "-->"
	case 2:
		body = strings.Repeat("<g/>", fill/4) + strings.Repeat("\n", fill%4)
	case 3:
		body = "<desc>" + strings.Repeat("d", fill-13) + "</desc>"
	}
	text := head + body + tail
	how := x.Choose(3)
	x.Desc(func() string { return fmt.Sprintf("%d bytes, kind %d, delivery %d", len(text), what, how) })
	x.State(n, what, how)
	var p parsed
	switch how {
	case 0:
		p = x.parseFrom(strings.NewReader(text), svg.StrictErrorMode)
	case 1:
		p = x.parseFrom(io.MultiReader(strings.NewReader(text[:n/2]), strings.NewReader(text[n/2:])), svg.StrictErrorMode)
	case 2:
		d, err := os.MkdirTemp("", "huge")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(d)
		f := filepath.Join(d, "a.svg")
		if err := os.WriteFile(f, []byte(text), 0o600); err != nil {
			panic(err)
		}
		x.Call("ParseFile", func() { p.s, p.err = svg.ParseFile(f, svg.StrictErrorMode) })
	}
	if p.err != nil {
		x.Failf("parsing failed: %v", p.err)
	}
	if len(p.s.SvgPaths) != 2 || len(p.s.Titles) != 1 || p.s.Titles[0] != "T" || (what == 3) != (len(p.s.Descriptions) == 1) {
		x.Failf("%d paths, titles %q, %d descriptions", len(p.s.SvgPaths), p.s.Titles, len(p.s.Descriptions))
	}
	if what == 3 && p.s.Descriptions[0] != body[6:len(body)-7] {
		x.Failf("the description is not complete: %d bytes", len(p.s.Descriptions[0]))
	}
	x.Outcome("read")
}

// ---- C17: magnitudes ----

func rel(a, b, scale float64) bool { return math.Abs(a-b) <= 1e-9*(scale+math.Abs(a)+math.Abs(b)) }

func runC17Magnitudes(x *X) {
	mags := []float64{1e-9, 1e-6, 1e-4, 1e-2, 0.1, 1, 10, 1e3, 1e5, 1e7}
	s, t := mags[x.Choose(len(mags))], mags[x.Choose(len(mags))]
	shape := [][4]float64{{1, 0, 0, 1}, {0, 1, -1, 0}, {2, 0.5, -0.25, 1}, {-1, 0, 0, 3}, {1, 0, 0.5, -1}}[x.Choose(5)]
	m := svg.Matrix2D{A: shape[0] * s, B: shape[1] * s, C: shape[2] * s, D: shape[3] * s, E: 3 * t, F: -t}
	keep := m
	x.Desc(func() string { return fmt.Sprint(m) })
	x.State(m)
	pts := []pt{{X: 0, Y: 0}, {X: 1, Y: 0}, {X: 0, Y: 1}, {X: -3.5, Y: 2.25}, {X: 1e4, Y: -7e3}, {X: 1e-3, Y: 2e-4}}
	sz := s * 4
	cmp := func(what string, got svg.Matrix2D, want func(p pt) pt, scale float64) {
		for _, p := range pts {
			a, b := apply(got, p), want(p)
			if k := scale*(1+math.Abs(p.X)+math.Abs(p.Y)) + 4*t + sz*(math.Abs(p.X)+math.Abs(p.Y)); !rel(a.X, b.X, k) || !rel(a.Y, b.Y, k) {
				x.Failf("%s maps %v to %v, want %v", what, p, a, b)
			}
		}
	}
	x.Call("matrix", func() {
		for _, k := range []float64{1e-9, 1e-7, 1e-5, 1e-3, 0.02, 1e3, -1e-6, -1e4, 123456} {
			c, sn, tn := math.Cos(k), math.Sin(k), math.Tan(k)
			cmp(fmt.Sprintf("Translate(%v)", k), m.Translate(k, -2*k), func(p pt) pt { return apply(m, pt{X: p.X + k, Y: p.Y - 2*k}) }, sz*math.Abs(k))
			cmp(fmt.Sprintf("Scale(%v)", k), m.Scale(k, 1/k), func(p pt) pt { return apply(m, pt{X: p.X * k, Y: p.Y / k}) }, 0)
			// the effect of a small angle is compared, not only the sum
			cmp(fmt.Sprintf("Rotate(%v)", k), m.Rotate(k), func(p pt) pt { return apply(m, pt{X: p.X*c - p.Y*sn, Y: p.X*sn + p.Y*c}) }, 0)
			cmp(fmt.Sprintf("SkewX(%v)", k), m.SkewX(k), func(p pt) pt { return apply(m, pt{X: p.X + p.Y*tn, Y: p.Y}) }, sz*math.Abs(tn))
			cmp(fmt.Sprintf("SkewY(%v)", k), m.SkewY(k), func(p pt) pt { return apply(m, pt{X: p.X, Y: p.Y + p.X*tn}) }, sz*math.Abs(tn))
			for _, q := range []struct {
				what string
				m    svg.Matrix2D
				w    [4]float64
			}{
				{"Rotate", svg.Identity.Rotate(k), [4]float64{c, sn, -sn, c}},
				{"SkewX", svg.Identity.SkewX(k), [4]float64{1, 0, tn, 1}},
				{"SkewY", svg.Identity.SkewY(k), [4]float64{1, tn, 0, 1}},
				{"Scale", svg.Identity.Scale(k, -k), [4]float64{k, 0, 0, -k}},
				{"Translate", svg.Identity.Translate(k, -k), [4]float64{1, 0, 0, 1}},
			} {
				g := [4]float64{q.m.A, q.m.B, q.m.C, q.m.D}
				for i := range g {
					if !rel(g[i], q.w[i], 0) {
						x.Failf("%s(%v) of the identity is %v", q.what, k, q.m)
					}
				}
			}
		}
		for _, p := range pts {
			gx, gy := m.Transform(p.X, p.Y)
			w := apply(m, p)
			if !rel(gx, w.X, 0) || !rel(gy, w.Y, 0) {
				x.Failf("Transform(%v) = %v,%v want %v", p, gx, gy, w)
			}
		}
		// the inverse, entry by entry
		det := m.A*m.D - m.B*m.C
		inv := m.Invert()
		want := [6]float64{m.D / det, -m.B / det, -m.C / det, m.A / det}
		want[4], want[5] = -(want[0]*m.E + want[2]*m.F), -(want[1]*m.E + want[3]*m.F)
		got := [6]float64{inv.A, inv.B, inv.C, inv.D, inv.E, inv.F}
		for i := range want {
			scale := 1 / s
			if i > 3 {
				scale = 4 * t / s
			}
			if math.Abs(got[i]-want[i]) > 1e-9*(scale+math.Abs(want[i])) {
				x.Failf("Invert is %v, want %v", got, want)
			}
		}
		o := svg.Matrix2D{A: 0.5, B: 2, C: -3, D: 1, E: t, F: 7}
		cmp("Mult", m.Mult(o), func(p pt) pt { return apply(m, apply(o, p)) }, sz*(t+7)+4*t)
		cmp("Mult", o.Mult(m), func(p pt) pt { return apply(o, apply(m, p)) }, sz*4+4*t)
		if w := (math.Hypot(m.A, m.B) + math.Hypot(m.C, m.D)) / 2; !rel(m.LineWidthScale(), w, 0) {
			x.Failf("LineWidthScale is %v, want %v", m.LineWidthScale(), w)
		}
	})
	if m != keep {
		x.Failf("an operand was modified")
	}
}

// rotations and skews by every whole and half degree through the parser
func runC08Angles(x *X) {
	half := x.Choose(1600) - 800
	f := x.Pick("rotate", "skewX", "skewY", "rotate3")
	a := fmt.Sprint(float64(half) / 2)
	if f[0] == 's' && (half%360 == 180 || half%360 == -180) {
		x.Skip() // skew by a right angle
	}
	v := f + "(" + a + ")"
	if f == "rotate3" {
		v = "rotate(" + a + ",3 -4)"
	}
	x.conform(svgRoot(model.E("line", "x2", "5", "y2", "2", "transform", v)), svg.StrictErrorMode)
}

func init() {
	addDrivers("C13", &Driver{Name: "lengths", Quick: -1, Thorough: -1, Run: runC13Lengths, Note: "43 length and number attributes x 57 malformed values x attribute or declaration x nesting x mode"},
		&Driver{Name: "arity", Quick: -1, Thorough: -1, Run: runC13Arity, Note: "argument counts of path commands (0..22), transform functions (0..13), viewBox and point lists that do not fit"},
		&Driver{Name: "transforms", Quick: -1, Thorough: -1, Run: runC13Transforms, Note: "sequences of up to 6 (7) of 6 pieces of transform lists that are none"})
	addDrivers("C12", &Driver{Name: "entities", Quick: -1, Thorough: -1, Run: runC12Entities, Note: "all HTML entity names, invalid names and invalid character references in 4 places x 3 modes"},
		&Driver{Name: "charrefs", Quick: -1, Thorough: -1, Run: runC12CharRefs, Note: "28 code points x 5 spellings"},
		&Driver{Name: "encodings", Quick: -1, Thorough: -1, Run: runC12Encodings, Note: "22 encoding labels x 5 text lengths x 2 quotes x 3 prologs"})
	addDrivers("C15", &Driver{Name: "huge", Quick: -1, Thorough: -1, Run: runC15Huge, Note: "sizes up to 4 MB (64 MB) of 4 kinds through a reader, a split reader and a file"})
	addDrivers("C17", &Driver{Name: "magnitudes", Quick: -1, Thorough: -1, Run: runC17Magnitudes, Note: "linear and translation parts of 10x10 magnitudes from 1e-9 to 1e7 x 5 shapes; operations with 9 arguments from 1e-9 to 1e5"})
	addDrivers("C08", &Driver{Name: "angles", Quick: -1, Thorough: -1, Run: runC08Angles, Note: "rotations and skews by all multiples of half a degree in -400..400"})
}

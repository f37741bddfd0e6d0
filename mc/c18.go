package main

import (
	"fmt"
	"reflect"
	"strings"

	svg "github.com/lafriks/go-svg"
	"golang.org/x/image/math/fixed"
)

var fxVals = []fixed.Int26_6{0, 64, -64, 1, -1, 63, -63, 33, 6401, -100000*64 - 7, 32, 12 * 64}
var fxBig = []fixed.Int26_6{0, 1, 31, 33, 63, -1, -63, 1 << 24, 1<<24 + 1, -(1<<24 + 1), 1<<26 + 5, -(1<<26 + 37), 1<<29 + 63, 1<<29 + 33, -(1<<30 + 31), 1<<30 - 1, -(1 << 30) + 1}

func opString(op svg.Operation) string { return fmt.Sprintf("%T%v", op, reflect.ValueOf(op)) }

// pathOpsEqual compares operations; coordinates within tol sixty-fourths.
func pathOpsEqual(a, b svg.Path, tol int64) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d operations instead of %d: %v", len(b), len(a), []svg.Operation(b))
	}
	flat := func(op svg.Operation) (byte, []fixed.Int26_6) {
		switch o := op.(type) {
		case svg.OpMoveTo:
			return 'M', []fixed.Int26_6{o.X, o.Y}
		case svg.OpLineTo:
			return 'L', []fixed.Int26_6{o.X, o.Y}
		case svg.OpQuadTo:
			return 'Q', []fixed.Int26_6{o[0].X, o[0].Y, o[1].X, o[1].Y}
		case svg.OpCubicTo:
			return 'C', []fixed.Int26_6{o[0].X, o[0].Y, o[1].X, o[1].Y, o[2].X, o[2].Y}
		case svg.OpClose:
			return 'Z', nil
		}
		return '?', nil
	}
	for i := range a {
		ka, va := flat(a[i])
		kb, vb := flat(b[i])
		if ka != kb {
			return fmt.Sprintf("operation %d is %c instead of %c", i, kb, ka)
		}
		for j := range va {
			d := int64(va[j]) - int64(vb[j])
			if d < -tol || d > tol {
				return fmt.Sprintf("coordinate %d of operation %d is %d/64 instead of %d/64", j, i, vb[j], va[j])
			}
		}
	}
	return ""
}

// pathGrammar checks that a text is absolute path data.
func pathGrammar(s string) string {
	i := 0
	ws := func() {
		for i < len(s) && strings.IndexByte(" \t\r\n,", s[i]) >= 0 {
			i++
		}
	}
	num := func() bool {
		ws()
		j := i
		if i < len(s) && (s[i] == '-' || s[i] == '+') {
			i++
		}
		d := 0
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
			d++
		}
		if i < len(s) && s[i] == '.' {
			i++
			for i < len(s) && s[i] >= '0' && s[i] <= '9' {
				i++
				d++
			}
		}
		if d == 0 {
			i = j
			return false
		}
		if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
			k := i + 1
			if k < len(s) && (s[k] == '-' || s[k] == '+') {
				k++
			}
			e := k
			for k < len(s) && s[k] >= '0' && s[k] <= '9' {
				k++
			}
			if k > e {
				i = k
			}
		}
		return true
	}
	for ws(); i < len(s); ws() {
		n := map[byte]int{'M': 2, 'L': 2, 'H': 1, 'V': 1, 'C': 6, 'S': 4, 'Q': 4, 'T': 2, 'A': 7, 'Z': -1}[s[i]]
		if n == 0 {
			return fmt.Sprintf("%q is not absolute path data at offset %d", s, i)
		}
		i++
		if n < 0 {
			continue
		}
		for g := 0; ; g++ {
			k := i
			got := 0
			for got < n && num() {
				got++
			}
			if got == 0 && g > 0 {
				i = k
				break
			}
			if got < n {
				return fmt.Sprintf("%q: incomplete arguments at offset %d", s, i)
			}
		}
	}
	return ""
}

// roundTrip prints and reads back.
func (x *X) roundTrip(p svg.Path) {
	before := dump(p)
	var s, s2, s3 string
	x.Call("ToSVGPath", func() { s = p.ToSVGPath() })
	x.Call("String", func() { s2 = p.String() })
	if dump(p) != before {
		x.Failf("printing changed the path")
	}
	x.Call("ToSVGPath", func() { s3 = p.ToSVGPath() })
	if s != s3 {
		x.Failf("printing twice gives %q and %q", s, s3)
	}
	for _, t := range []string{s, s2} {
		if e := pathGrammar(t); e != "" {
			x.Failf("%s", e)
		}
		if len(p) == 0 {
			if strings.TrimSpace(t) != "" {
				x.Failf("the empty path prints as %q", t)
			}
			continue
		}
		q := x.parse(`<svg viewBox="0 0 12 8"><path d="`+t+`"/></svg>`, svg.StrictErrorMode)
		if q.err != nil {
			x.Failf("%q does not parse: %v", t, q.err)
		}
		if len(q.s.SvgPaths) != 1 {
			x.Failf("%q gives %d paths", t, len(q.s.SvgPaths))
		}
		if e := pathOpsEqual(p, q.s.SvgPaths[0].Path, 1); e != "" {
			x.Failf("%q reads back differently: %s", t, e)
		}
		if s == s2 {
			break
		}
	}
	x.OutcomeH(hashStr(s))
}

// buildPath builds a path of up to n operations with the building methods, checking each step against the
// operation list it has to give. A close is followed by a start, as in every parsed path.
func (x *X) buildPath(n int, val func() fixed.Int26_6) (p svg.Path, want svg.Path) {
	pnt := func() fixed.Point26_6 { return fixed.Point26_6{X: val(), Y: val()} }
	steps := ""
	closed := true
	for i := 0; i < n; i++ {
		var k int
		if closed {
			k = x.Choose(2) // stop or start
			if k == 1 {
				k = 5
			}
		} else {
			k = x.Choose(7)
		}
		if k == 0 {
			break
		}
		switch k {
		case 5:
			a := pnt()
			x.Call("Start", func() { p.Start(a) })
			want = append(want, svg.OpMoveTo(a))
			closed = false
			steps += "M"
		case 1:
			a := pnt()
			x.Call("Line", func() { p.Line(a) })
			want = append(want, svg.OpLineTo(a))
			steps += "L"
		case 2:
			a, b := pnt(), pnt()
			x.Call("QuadBezier", func() { p.QuadBezier(a, b) })
			want = append(want, svg.OpQuadTo{a, b})
			steps += "Q"
		case 3:
			a, b, c := pnt(), pnt(), pnt()
			x.Call("CubeBezier", func() { p.CubeBezier(a, b, c) })
			want = append(want, svg.OpCubicTo{a, b, c})
			steps += "C"
		case 4:
			x.Call("Stop", func() { p.Stop(true) })
			want = append(want, svg.OpClose{})
			closed = true
			steps += "Z"
		case 6:
			x.Call("Stop", func() { p.Stop(false) })
			steps += "-"
		}
		if e := pathOpsEqual(want, p, 0); e != "" {
			x.Failf("after %s: %s", steps, e)
		}
	}
	x.Desc(func() string { return fmt.Sprintf("operations %v", dump(want)) })
	x.State(steps, dump(want))
	return
}

func runC18Ops(n, nt int, vals int) func(x *X) {
	return func(x *X) {
		m := n
		if x.Thorough {
			m = nt
		}
		k := 0
		off := x.Choose(vals)
		p, _ := x.buildPath(m, func() fixed.Int26_6 { k++; return fxVals[(off+k*5)%len(fxVals)] })
		x.roundTrip(p)
	}
}

// every pair of coordinates in every operation
func runC18Coords(x *X) {
	vals := append(append([]fixed.Int26_6{}, fxVals...), fxBig...)
	kind := x.Choose(4)
	at := x.Choose([]int{1, 1, 2, 3}[kind])
	a := vals[x.Choose(len(vals))]
	b := vals[x.Choose(len(vals))]
	if x.Thorough {
		c := vals[x.Choose(len(vals))]
		vals[0] = c
	}
	var pts [3]fixed.Point26_6
	for i := range pts {
		pts[i] = fixed.Point26_6{X: vals[0] + fixed.Int26_6(i)*64, Y: 7 * 64}
	}
	pts[at] = fixed.Point26_6{X: a, Y: b}
	p := svg.Path{svg.OpMoveTo{X: 64, Y: 128}}
	switch kind {
	case 0:
		p[0] = svg.OpMoveTo(pts[0])
		p = append(p, svg.OpLineTo{X: 5, Y: 6})
	case 1:
		p = append(p, svg.OpLineTo(pts[0]))
	case 2:
		p = append(p, svg.OpQuadTo{pts[0], pts[1]})
	case 3:
		p = append(p, svg.OpCubicTo{pts[0], pts[1], pts[2]})
	}
	x.Desc(func() string { return dump(p) })
	x.State(dump(p))
	x.roundTrip(p)
}

// every sixty-fourth
func runC18Frac(x *X) {
	base := fixed.Int26_6([]int{0, 7, -7, 999, -1000, 1 << 17, -(1 << 17), 1 << 22, -(1 << 22)}[x.Choose(9)]) * 64
	f := fixed.Int26_6(x.Choose(64))
	g := fixed.Int26_6(x.Choose(64))
	a, b, c := fixed.Point26_6{X: base + f, Y: -base - g}, fixed.Point26_6{X: base - f, Y: g}, fixed.Point26_6{X: -g, Y: base + f}
	p := svg.Path{svg.OpMoveTo(a), svg.OpLineTo(b)}
	switch x.Choose(3) {
	case 1:
		p = append(p, svg.OpQuadTo{a, c}, svg.OpQuadTo{c, b}, svg.OpMoveTo(c), svg.OpLineTo(a))
	case 2:
		p = append(p, svg.OpCubicTo{a, b, c}, svg.OpCubicTo{c, a, b}, svg.OpClose{}, svg.OpMoveTo(b), svg.OpCubicTo{b, c, a})
	}
	x.Desc(func() string { return dump(p) })
	x.State(base, f, g)
	x.roundTrip(p)
}

// parsed paths, all element kinds
func runC18Parsed(n, nt int) func(x *X) {
	return func(x *X) {
		m := n
		if x.Thorough {
			m = nt
		}
		d := x.Pick("M1 2", "m1.5-2", "M0 0 3 4")
		cmds := []string{"L3 4", "l.015.984", "h5", "V-1", "C1 2 3 4 5 6", "s1 1 2 2", "q1 2 3-4", "T9 9", "a2 3 20 0 1 4 4", "A5 5 0 1 0 0 0", "z", "zm1 1", "M5 5", "zl2 2"}
		for i := 0; i < m; i++ {
			k := x.Choose(len(cmds) + 1)
			if k == 0 {
				break
			}
			d += cmds[k-1]
		}
		x.Desc(func() string { return d })
		x.State(d)
		q := x.parse(`<svg viewBox="0 0 12 8"><path d="`+d+`"/></svg>`, svg.StrictErrorMode)
		if q.err != nil || len(q.s.SvgPaths) != 1 {
			x.Failf("%q: %v", d, q.err)
		}
		x.roundTrip(q.s.SvgPaths[0].Path)
	}
}

// sequences of building, printing and clearing on one path variable
func runC18Clear(n, nt int) func(x *X) {
	return func(x *X) {
		m := n
		if x.Thorough {
			m = nt
		}
		var p, want svg.Path
		var kept []svg.Path
		var keptDump []string
		steps := ""
		x.Desc(func() string { return steps })
		k := fixed.Int26_6(0)
		pnt := func() fixed.Point26_6 { k++; return fixed.Point26_6{X: k * 64, Y: k * 7} }
		for i := 0; i < m; i++ {
			switch x.Choose(9) {
			case 0:
				a := pnt()
				x.Call("Start", func() { p.Start(a) })
				want = append(want, svg.OpMoveTo(a))
				steps += "M"
			case 1:
				a := pnt()
				x.Call("Line", func() { p.Line(a) })
				want = append(want, svg.OpLineTo(a))
				steps += "L"
			case 2:
				a, b := pnt(), pnt()
				x.Call("QuadBezier", func() { p.QuadBezier(a, b) })
				want = append(want, svg.OpQuadTo{a, b})
				steps += "Q"
			case 3:
				a, b, c := pnt(), pnt(), pnt()
				x.Call("CubeBezier", func() { p.CubeBezier(a, b, c) })
				want = append(want, svg.OpCubicTo{a, b, c})
				steps += "C"
			case 4:
				x.Call("Stop", func() { p.Stop(true) })
				want = append(want, svg.OpClose{})
				steps += "Z"
			case 5:
				x.Call("Stop", func() { p.Stop(false) })
				steps += "-"
			case 6:
				x.Call("Clear", func() { p.Clear() })
				want = nil
				steps += "0"
			case 7:
				var s string
				x.Call("String", func() { s = p.String() })
				if e := pathGrammar(s); e != "" {
					x.Failf("%s", e)
				}
				steps += "s"
			case 8: // a copy taken now stays as it is
				c := append(svg.Path{}, p...)
				kept = append(kept, c)
				keptDump = append(keptDump, dump(c))
				steps += "k"
			}
			if e := pathOpsEqual(want, p, 0); e != "" {
				x.Failf("after %s: %s", steps, e)
			}
			for j := range kept {
				if dump(kept[j]) != keptDump[j] {
					x.Failf("after %s: a copy of the path changed", steps)
				}
			}
			x.State(steps)
		}
		x.Outcome(dump(want))
	}
}

// shapes and text of single operations
func runC18Shapes(x *X) {
	el := x.Pick(`<rect x="1" y="2" width="5" height="3"/>`, `<rect width="5" height="3" rx="1"/>`, `<rect width="5.7" height="3.3" rx="1" ry="9"/>`, `<circle r="3"/>`, `<ellipse cx="1.1" rx="3" ry="2.7"/>`,
		`<line x2="4" y2="-.5"/>`, `<polygon points="1,2 3,4 5.55,6"/>`, `<polyline points="-1,2 3,-4 5,6"/>`)
	tr := x.Pick("", "scale(2)", "translate(-1e4)", "rotate(33)")
	text := `<svg viewBox="0 0 12 8"><g transform="` + tr + `">` + el + `</g></svg>`
	x.Desc(func() string { return text })
	x.State(text)
	q := x.parse(text, svg.StrictErrorMode)
	if q.err != nil || len(q.s.SvgPaths) != 1 {
		x.Failf("%v", q.err)
	}
	p := q.s.SvgPaths[0].Path
	x.roundTrip(p)
	for _, op := range p {
		var s string
		x.Call("String", func() { s = op.String() })
		if e := pathGrammar(s); e != "" {
			x.Failf("%s", e)
		}
	}
}

func init() {
	register(&Property{ID: "C18", Rule: "each execution is one path: built step by step (the operation list is compared after each step), printed, checked against an independent recogniser of absolute path data, and read back by the parser",
		Assumptions: []string{"coordinates below 2^24 units; a path starts with a moveto and a close is followed by a moveto, as in every parsed path"},
		Drivers: []*Driver{
			{Name: "ops", Quick: -1, Thorough: -1, Run: runC18Ops(6, 8, 12), Note: "all sequences of <= 6 (8) building operations x 12 coordinate rotations"},
			{Name: "coords", Quick: -1, Thorough: -1, Run: runC18Coords, Note: "27 x 27 (27^3) coordinate values up to 2^24 units at every point of every operation"},
			{Name: "frac", Quick: -1, Thorough: -1, Run: runC18Frac, Note: "every pair of sixty-fourths at 9 magnitudes in every operand of lines, quadratic and cubic curves"},
			{Name: "parsed", Quick: -1, Thorough: -1, Run: runC18Parsed(4, 5), Note: "parsed paths of <= 4 (5) of 14 commands"},
			{Name: "clear", Quick: -1, Thorough: -1, Run: runC18Clear(6, 7), Note: "all sequences of 6 (7) of build, close, stop, clear, print, copy"},
			{Name: "shapes", Quick: -1, Thorough: -1, Run: runC18Shapes, Note: "8 shapes under 4 transforms"},
		}})
}

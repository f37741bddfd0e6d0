package main

import (
	"fmt"
	"math"

	svg "github.com/lafriks/go-svg"
	"golang.org/x/image/math/fixed"
)

func (x *X) entry(vals []float64) float64 { return vals[x.Choose(len(vals))] }

func (x *X) matrix(lin, tr []float64) svg.Matrix2D {
	return svg.Matrix2D{A: x.entry(lin), B: x.entry(lin), C: x.entry(lin), D: x.entry(lin), E: x.entry(tr), F: x.entry(tr)}
}

// apply is the definition of an affine map, written out here independently.
func apply(m svg.Matrix2D, p pt) pt {
	return pt{X: m.A*p.X + m.C*p.Y + m.E, Y: m.B*p.X + m.D*p.Y + m.F}
}

var probe = []pt{{X: 0, Y: 0}, {X: 1, Y: 0}, {X: 0, Y: 1}, {X: -3.5, Y: 2.25}, {X: 100, Y: -70}}

func peq(a, b pt) bool { return feq(a.X, b.X) && feq(a.Y, b.Y) }

func meq(a, b svg.Matrix2D) bool {
	return feq(a.A, b.A) && feq(a.B, b.B) && feq(a.C, b.C) && feq(a.D, b.D) && feq(a.E, b.E) && feq(a.F, b.F)
}

func runC17Single(x *X) {
	m := x.matrix([]float64{0, 1, -1, 2, 0.5}, []float64{0, 3, -7.5})
	x.Desc(func() string { return fmt.Sprint(m) })
	x.State(m)
	keep := m
	chk := func(what string, got svg.Matrix2D, f func(p pt) pt) {
		for _, p := range probe {
			if a, b := apply(got, p), f(p); !peq(a, b) {
				x.Failf("%s maps %v to %v, want %v (matrix %v)", what, p, a, b, got)
			}
		}
	}
	x.Call("matrix", func() {
		if !meq(m.Mult(svg.Identity), m) || !meq(svg.Identity.Mult(m), m) {
			x.Failf("identity is not neutral")
		}
		for _, p := range probe {
			gx, gy := m.Transform(p.X, p.Y)
			if !peq(pt{X: gx, Y: gy}, apply(m, p)) {
				x.Failf("Transform(%v) = %v,%v want %v", p, gx, gy, apply(m, p))
			}
			vx, vy := m.TransformVector(p.X, p.Y)
			w := apply(svg.Matrix2D{A: m.A, B: m.B, C: m.C, D: m.D}, p)
			if !peq(pt{X: vx, Y: vy}, w) {
				x.Failf("TransformVector(%v) = %v,%v want %v", p, vx, vy, w)
			}
			fp := fixed.Point26_6{X: fixed.Int26_6(p.X * 64), Y: fixed.Int26_6(p.Y * 64)}
			fq := fixed.Point26_6{X: fixed.Int26_6(p.Y * 64), Y: fixed.Int26_6(-p.X * 64)}
			fr := fixed.Point26_6{X: fixed.Int26_6(p.Y*64) + 33, Y: fixed.Int26_6(p.X*64) - 17}
			in := func(what string, got, arg fixed.Point26_6) {
				if !near(fx(got), apply(m, fx(arg)), quantum*1.001) {
					x.Failf("%s(%v) = %v, want %v", what, fx(arg), fx(got), apply(m, fx(arg)))
				}
			}
			in("TFixed", m.TFixed(fp), fp)
			in("TFixed", m.TFixed(fr), fr)
			in("MoveTo", m.MoveTo(svg.OpMoveTo(fp)), fp)
			in("LineTo", m.LineTo(svg.OpLineTo(fr)), fr)
			q1, q2 := m.QuadTo(svg.OpQuadTo{fp, fq})
			in("QuadTo 1", q1, fp)
			in("QuadTo 2", q2, fq)
			c1, c2, c3 := m.CubicTo(svg.OpCubicTo{fr, fp, fq})
			in("CubicTo 1", c1, fr)
			in("CubicTo 2", c2, fp)
			in("CubicTo 3", c3, fq)
		}
		if w := (math.Hypot(m.A, m.B) + math.Hypot(m.C, m.D)) / 2; !feq(m.LineWidthScale(), w) {
			x.Failf("LineWidthScale is %v, want %v", m.LineWidthScale(), w)
		}
		for _, s := range [][2]float64{{2, 3}, {-1, 0.5}, {0, 4}} {
			s := s
			chk(fmt.Sprintf("Translate%v", s), m.Translate(s[0], s[1]), func(p pt) pt { return apply(m, pt{X: p.X + s[0], Y: p.Y + s[1]}) })
			chk(fmt.Sprintf("Scale%v", s), m.Scale(s[0], s[1]), func(p pt) pt { return apply(m, pt{X: p.X * s[0], Y: p.Y * s[1]}) })
		}
		for _, th := range []float64{0, math.Pi / 6, math.Pi / 2, -1, 3} {
			c, s, t := math.Cos(th), math.Sin(th), math.Tan(th)
			chk(fmt.Sprintf("Rotate(%v)", th), m.Rotate(th), func(p pt) pt { return apply(m, pt{X: p.X*c - p.Y*s, Y: p.X*s + p.Y*c}) })
			if th == math.Pi/2 {
				continue
			}
			chk(fmt.Sprintf("SkewX(%v)", th), m.SkewX(th), func(p pt) pt { return apply(m, pt{X: p.X + p.Y*t, Y: p.Y}) })
			chk(fmt.Sprintf("SkewY(%v)", th), m.SkewY(th), func(p pt) pt { return apply(m, pt{X: p.X, Y: p.Y + p.X*t}) })
		}
		if math.Abs(m.A*m.D-m.B*m.C) > 1e-9 {
			inv := m.Invert()
			chk("Invert after m", inv.Mult(m), func(p pt) pt { return p })
			for _, p := range probe {
				if g := apply(inv, apply(m, p)); !peq(g, p) {
					x.Failf("Invert does not undo: %v -> %v", p, g)
				}
				if g := apply(m, apply(inv, p)); !peq(g, p) {
					x.Failf("Invert is no right inverse: %v -> %v", p, g)
				}
			}
		}
	})
	if m != keep || svg.Identity != (svg.Matrix2D{A: 1, D: 1}) {
		x.Failf("an operand or Identity was modified")
	}
}

func runC17Pair(x *X) {
	lin := []float64{0, 1, -2, 0.5}
	tr := []float64{0, 3, -1.5}
	if x.Thorough {
		lin = []float64{0, 1, -2, 0.5, 3.25}
	}
	a := x.matrix(lin, tr)
	b := x.matrix(lin, tr)
	x.Desc(func() string { return fmt.Sprint(a, b) })
	x.StateH(hashStr(fmt.Sprint(a)))
	x.Call("Mult", func() {
		p := a.Mult(b)
		for _, q := range probe {
			if g, w := apply(p, q), apply(a, apply(b, q)); !peq(g, w) {
				x.Failf("%v*%v maps %v to %v, want %v", a, b, q, g, w)
			}
		}
		// products of products: (a*b)*a = a*(b*a)
		if !meq(p.Mult(a), a.Mult(b.Mult(a))) {
			x.Failf("product is not associative on %v %v", a, b)
		}
	})
}

// chains of elementary operations from the identity
func runC17Chain(n int) func(x *X) {
	return func(x *X) {
		m := svg.Identity
		f := func(p pt) pt { return p }
		d := ""
		for i := 0; i < n; i++ {
			g := f
			k := x.Choose(9)
			d += fmt.Sprint(k, " ")
			x.Call("chain", func() {
				switch k {
				case 0:
					m = m.Translate(3, -2)
					f = func(p pt) pt { return g(pt{X: p.X + 3, Y: p.Y - 2}) }
				case 1:
					m = m.Scale(2, 0.5)
					f = func(p pt) pt { return g(pt{X: p.X * 2, Y: p.Y * 0.5}) }
				case 2:
					m = m.Rotate(math.Pi / 6)
					f = func(p pt) pt {
						c, s := math.Cos(math.Pi/6), math.Sin(math.Pi/6)
						return g(pt{X: p.X*c - p.Y*s, Y: p.X*s + p.Y*c})
					}
				case 3:
					m = m.SkewX(0.5)
					f = func(p pt) pt { return g(pt{X: p.X + p.Y*math.Tan(0.5), Y: p.Y}) }
				case 4:
					m = m.SkewY(-0.25)
					f = func(p pt) pt { return g(pt{X: p.X, Y: p.Y + p.X*math.Tan(-0.25)}) }
				case 5:
					q := svg.Matrix2D{A: 1, B: 2, C: -1, D: 3, E: 4, F: 5}
					m = m.Mult(q)
					f = func(p pt) pt { return g(apply(q, p)) }
				case 6:
					m = m.Scale(-1, 1)
					f = func(p pt) pt { return g(pt{X: -p.X, Y: p.Y}) }
				case 7:
					if math.Abs(m.A*m.D-m.B*m.C) < 1e-9 {
						x.Skip()
					}
					o := m
					m = m.Invert()
					f = func(p pt) pt {
						det := o.A*o.D - o.B*o.C
						px, py := p.X-o.E, p.Y-o.F
						return pt{X: (o.D*px - o.C*py) / det, Y: (-o.B*px + o.A*py) / det}
					}
				case 8:
					m = m.Translate(0, 7)
					f = func(p pt) pt { return g(pt{X: p.X, Y: p.Y + 7}) }
				}
			})
			x.State(m)
		}
		x.Desc(func() string { return "chain " + d })
		for _, p := range probe {
			if a, b := apply(m, p), f(p); math.Abs(a.X-b.X)+math.Abs(a.Y-b.Y) > 1e-6*(1+math.Abs(b.X)+math.Abs(b.Y)) {
				x.Failf("chain maps %v to %v, want %v", p, a, b)
			}
		}
	}
}

func init() {
	register(&Property{ID: "C17", Rule: "each execution is one matrix, pair of matrices or chain of operations",
		Assumptions: []string{"matrix entries come from a small grid containing zero, one, negative and fractional values; the operations are polynomial in the entries, of degree at most two (product) or three (inverse)"},
		Drivers: []*Driver{
			{Name: "single", Quick: -1, Thorough: -1, Run: runC17Single, Note: "all matrices with linear entries in {0,1,-1,2,1/2}, translation in {0,3,-7.5}^2; all operations on a point grid"},
			{Name: "pair", Quick: -1, Thorough: -1, Run: runC17Pair, Note: "all pairs of matrices over {0,1,-2,1/2}^4 x {0,3,-1.5}^2 (thorough also entry 3.25)"},
			{Name: "chain5", Quick: -1, Thorough: -1, Run: runC17Chain(5), Note: "all chains of 5 operations of 9"},
			{Name: "chain7", Quick: -1, Thorough: -1, QuickOff: true, Run: runC17Chain(7), Note: "all chains of 7 operations of 9"},
		}})
}

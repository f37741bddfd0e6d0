package model

import "math"

// Pt is a point.
type Pt struct{ X, Y float64 }

// Mat is an affine map x' = A x + C y + E, y' = B x + D y + F.
type Mat struct{ A, B, C, D, E, F float64 }

// I is the identity map.
var I = Mat{1, 0, 0, 1, 0, 0}

// Mul returns the map that applies n first and m afterwards.
func (m Mat) Mul(n Mat) Mat {
	// the columns of the product are the images of the basis vectors and of the origin
	ax, ay := m.Vec(n.A, n.B)
	cx, cy := m.Vec(n.C, n.D)
	o := m.At(Pt{n.E, n.F})
	return Mat{ax, ay, cx, cy, o.X, o.Y}
}

// At applies the map to a point.
func (m Mat) At(p Pt) Pt { return Pt{m.A*p.X + m.C*p.Y + m.E, m.B*p.X + m.D*p.Y + m.F} }

// Vec applies the linear part.
func (m Mat) Vec(x, y float64) (float64, float64) { return m.A*x + m.C*y, m.B*x + m.D*y }

// Norm is a bound on the stretching of the linear part.
func (m Mat) Norm() float64 {
	return math.Sqrt(m.A*m.A + m.B*m.B + m.C*m.C + m.D*m.D)
}

// Seg is a path segment.
type Seg struct {
	Kind byte  // 'L' 'Q' 'C' 'A'
	P    [3]Pt // control points then end point: L uses P[0], Q P[0..1], C P[0..2]; A uses P[0] as end
	Arc  *EllArc
}

// End is the end point.
func (s Seg) End() Pt {
	switch s.Kind {
	case 'Q':
		return s.P[1]
	case 'C':
		return s.P[2]
	}
	return s.P[0]
}

// EllArc is an elliptical arc by centre parameterisation.
type EllArc struct {
	C          Pt
	Rx, Ry     float64
	Phi        float64 // rotation, radians
	Th1, Delta float64 // start angle and signed sweep
	Ambiguous  bool    // centre known, but both half arcs... (unused unless delta sign is fixed by sweep)
}

// Local maps a point to the unit circle frame of the ellipse.
func (e *EllArc) Local(p Pt) Pt {
	c, s := math.Cos(e.Phi), math.Sin(e.Phi)
	dx, dy := p.X-e.C.X, p.Y-e.C.Y
	return Pt{(dx*c + dy*s) / e.Rx, (-dx*s + dy*c) / e.Ry}
}

// PointAt is the ellipse point for a parameter angle.
func (e *EllArc) PointAt(t float64) Pt {
	c, s := math.Cos(e.Phi), math.Sin(e.Phi)
	x, y := e.Rx*math.Cos(t), e.Ry*math.Sin(t)
	return Pt{e.C.X + x*c - y*s, e.C.Y + x*s + y*c}
}

// Sub is a subpath.
type Sub struct {
	Start  Pt
	Segs   []Seg
	Closed bool
}

// Geom is the geometry of a shape. Outline geometries are compared as closed curves, without
// regard to start point, direction and segmentation.
type Geom struct {
	Subs    []Sub
	Outline bool
}

// ArcSeg computes the SVG arc from p to q (SVG 1.1 F.6.5/F.6.6). The result has kind 'L' for zero radii and
// kind 0 when the end points coincide.
func ArcSeg(p Pt, rx, ry, rotDeg float64, large, sweep bool, q Pt) Seg {
	if p == q {
		return Seg{}
	}
	rx, ry = math.Abs(rx), math.Abs(ry)
	if rx == 0 || ry == 0 {
		return Seg{Kind: 'L', P: [3]Pt{q}}
	}
	phi := rotDeg * math.Pi / 180
	c, s := math.Cos(phi), math.Sin(phi)
	x1 := c*(p.X-q.X)/2 + s*(p.Y-q.Y)/2
	y1 := -s*(p.X-q.X)/2 + c*(p.Y-q.Y)/2
	lam := x1*x1/(rx*rx) + y1*y1/(ry*ry)
	var co float64
	if lam >= 1 {
		k := math.Sqrt(lam)
		rx, ry = rx*k, ry*k
		co = 0
	} else {
		num := rx*rx*ry*ry - rx*rx*y1*y1 - ry*ry*x1*x1
		co = math.Sqrt(math.Max(0, num) / (rx*rx*y1*y1 + ry*ry*x1*x1))
	}
	if large == sweep {
		co = -co
	}
	cx1, cy1 := co*rx*y1/ry, -co*ry*x1/rx
	e := &EllArc{Rx: rx, Ry: ry, Phi: phi}
	e.C = Pt{c*cx1 - s*cy1 + (p.X+q.X)/2, s*cx1 + c*cy1 + (p.Y+q.Y)/2}
	a, b := e.Local(p), e.Local(q)
	e.Th1 = math.Atan2(a.Y, a.X)
	d := math.Atan2(b.Y, b.X) - e.Th1
	if lam >= 1 {
		// exactly half an ellipse: only the sweep flag decides
		if sweep {
			d = math.Pi
		} else {
			d = -math.Pi
		}
	} else {
		for d < 0 {
			d += 2 * math.Pi
		}
		for d > 2*math.Pi {
			d -= 2 * math.Pi
		}
		if !sweep {
			d -= 2 * math.Pi
		}
	}
	e.Delta = d
	return Seg{Kind: 'A', P: [3]Pt{q}, Arc: e}
}

package model

import "math"

// PathResult is the meaning of a path data string.
type PathResult struct {
	Geom    Geom
	Bad     bool // not in the grammar (or no leading moveto)
	Unknown int  // unknown command letters
}

var argc = map[byte]int{'M': 2, 'L': 2, 'H': 1, 'V': 1, 'C': 6, 'S': 4, 'Q': 4, 'T': 2, 'A': 7, 'Z': 0}

// Visit, when set, receives a hash of every model state the interpreter goes through.
var Visit func(h uint64)

func visit(vals ...float64) {
	if Visit == nil {
		return
	}
	h := uint64(14695981039346656037)
	for _, v := range vals {
		h ^= math.Float64bits(v)
		h *= 1099511628211
		h ^= h >> 31
	}
	h *= 0x9E3779B97F4A7C15
	Visit(h ^ h>>29)
}

// Path interprets path data.
func Path(d string) (r PathResult) {
	i := skipWS(d, 0)
	var (
		cur, start, ctl Pt
		fam             byte // family of the last curve: 'C' cubic, 'Q' quadratic
		needStart       = true
		seen            bool
	)
	open := func() {
		if needStart {
			r.Geom.Subs = append(r.Geom.Subs, Sub{Start: start})
			needStart = false
		}
	}
	add := func(s Seg) {
		open()
		sp := &r.Geom.Subs[len(r.Geom.Subs)-1]
		sp.Segs = append(sp.Segs, s)
	}
	for i < len(d) {
		c := d[i]
		up := c &^ 0x20
		n, known := argc[up]
		if !known || !(c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z') {
			r.Bad = true
			return
		}
		rel := c >= 'a'
		i = skipWS(d, i+1)
		if !seen && up != 'M' {
			r.Bad = true
			return
		}
		seen = true
		if up == 'Z' {
			if len(r.Geom.Subs) > 0 && !needStart {
				r.Geom.Subs[len(r.Geom.Subs)-1].Closed = true
			} else {
				// closing again a subpath that has not begun: a closed single point
				r.Geom.Subs = append(r.Geom.Subs, Sub{Start: start, Closed: true})
			}
			cur, needStart, fam = start, true, 0
			visit(float64('Z'), cur.X, cur.Y, start.X, start.Y)
			continue
		}
		groups := 0
		for {
			var a [7]float64
			j := i
			ok := true
			for k := 0; k < n; k++ {
				if k > 0 || groups > 0 {
					if j < len(d) && d[j] == ',' {
						j = skipWS(d, j+1)
					}
				}
				if up == 'A' && (k == 3 || k == 4) {
					if j < len(d) && (d[j] == '0' || d[j] == '1') {
						a[k] = float64(d[j] - '0')
						j = skipWS(d, j+1)
						continue
					}
					ok = false
					break
				}
				v, e, okn := ScanNumber(d, j)
				if !okn {
					ok = false
					break
				}
				a[k] = v
				j = skipWS(d, e)
			}
			if !ok {
				if groups == 0 || j != i {
					r.Bad = true
					return
				}
				break
			}
			i = j
			off := Pt{}
			if rel {
				off = cur
			}
			p := func(k int) Pt { return Pt{a[k] + off.X, a[k+1] + off.Y} }
			nf := byte(0)
			switch up {
			case 'M':
				if groups == 0 {
					start = p(0)
					needStart = true
					open()
					cur = start
				} else {
					cur = p(0)
					add(Seg{Kind: 'L', P: [3]Pt{cur}})
				}
			case 'L':
				cur = p(0)
				add(Seg{Kind: 'L', P: [3]Pt{cur}})
			case 'H':
				cur = Pt{a[0] + off.X, cur.Y}
				add(Seg{Kind: 'L', P: [3]Pt{cur}})
			case 'V':
				cur = Pt{cur.X, a[0] + off.Y}
				add(Seg{Kind: 'L', P: [3]Pt{cur}})
			case 'C':
				s := Seg{Kind: 'C', P: [3]Pt{p(0), p(2), p(4)}}
				add(s)
				ctl, cur, nf = s.P[1], s.P[2], 'C'
			case 'S':
				c1 := cur
				if fam == 'C' {
					c1 = Pt{2*cur.X - ctl.X, 2*cur.Y - ctl.Y}
				}
				s := Seg{Kind: 'C', P: [3]Pt{c1, p(0), p(2)}}
				add(s)
				ctl, cur, nf = s.P[1], s.P[2], 'C'
			case 'Q':
				s := Seg{Kind: 'Q', P: [3]Pt{p(0), p(2)}}
				add(s)
				ctl, cur, nf = s.P[0], s.P[1], 'Q'
			case 'T':
				c1 := cur
				if fam == 'Q' {
					c1 = Pt{2*cur.X - ctl.X, 2*cur.Y - ctl.Y}
				}
				s := Seg{Kind: 'Q', P: [3]Pt{c1, p(0)}}
				add(s)
				ctl, cur, nf = c1, s.P[1], 'Q'
			case 'A':
				q := p(5)
				s := ArcSeg(cur, a[0], a[1], a[2], a[3] != 0, a[4] != 0, q)
				if s.Kind != 0 {
					add(s)
				}
				cur = q
			}
			fam = nf
			groups++
			visit(float64(up), cur.X, cur.Y, start.X, start.Y, ctl.X, ctl.Y, float64(fam), float64(len(r.Geom.Subs)), a[0]+3*a[1]+5*a[2]+7*a[3]+11*a[4])
			if i >= len(d) {
				break
			}
			b := d[i]
			if b == ',' || isDigit(b) || b == '.' || b == '+' || b == '-' {
				continue
			}
			break
		}
	}
	return
}

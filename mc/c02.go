package main

import (
	"fmt"
	"strings"

	"mc/model"

	svg "github.com/lafriks/go-svg"
)

var arcRadii = []string{"10", "5", "20", "0", "-10", "0.5", "31.25", "1000"}
var arcRot = []string{"0", "30", "90", "-45", "180", "400"}
var arcEnd = [][2]float64{{20, 0}, {10, 10}, {0, 20}, {-15, 5}, {0, 0}, {60, 0}, {0, -30}, {1, 0}, {-20, -1}, {700, -400}}
var arcBefore = []string{"M10 12", "M10 12 L 3 5 L 14 15", "M10 12 C 1 2 3 4 5 6", "M10 12 L 20 12 z", "m4 3 6 9", "M 1 1 Q 5 6 9 2"}
var arcAfter = []string{"", "L 7 8", "t 3 4", "S 3 4 5 6", "l 1 1", "z", "H 2", "m 1 1 l 2 2"}
var arcBeforeEnd = []pt{{X: 10, Y: 12}, {X: 14, Y: 15}, {X: 5, Y: 6}, {X: 10, Y: 12}, {X: 10, Y: 12}, {X: 9, Y: 2}}

func arcGroup(rel bool, rx, ry, rot string, flags int, end [2]float64, cur *pt) string {
	dx, dy := end[0], end[1]
	x, y := dx, dy
	if !rel {
		x, y = cur.X+dx, cur.Y+dy
	}
	*cur = pt{X: cur.X + dx, Y: cur.Y + dy}
	return fmt.Sprintf(" %s %s %s %d %d %v %v", rx, ry, rot, flags>>1, flags&1, x, y)
}

func runC02Single(x *X) {
	rx := x.Pick(arcRadii...)
	ry := x.Pick(arcRadii...)
	rot := x.Pick(arcRot...)
	fl := x.Choose(4)
	end := arcEnd[x.Choose(len(arcEnd))]
	rel := x.Bool()
	var bi, ai int
	if x.Thorough {
		bi, ai = x.Choose(len(arcBefore)), x.Choose(len(arcAfter))
	} else if k := x.Choose(len(arcBefore) + len(arcAfter) - 1); k < len(arcBefore) {
		bi = k
	} else {
		ai = k - len(arcBefore) + 1
	}
	cur := arcBeforeEnd[bi]
	c := "A"
	if rel {
		c = "a"
	}
	d := arcBefore[bi] + " " + c + arcGroup(rel, rx, ry, rot, fl, end, &cur) + " " + arcAfter[ai]
	x.conform(svgRoot(model.E("path", "d", strings.TrimSpace(d))), svg.StrictErrorMode)
}

// several argument groups after one command letter
func runC02Groups(n int) func(x *X) {
	return func(x *X) {
		rel := x.Bool()
		cur := arcBeforeEnd[0]
		var b strings.Builder
		b.WriteString(arcBefore[0])
		if rel {
			b.WriteString(" a")
		} else {
			b.WriteString(" A")
		}
		for i := 0; i < n; i++ {
			rx := x.Pick("10", "5", "0", "-3")
			ry := x.Pick("10", "15")
			rot := x.Pick("0", "30")
			fl := x.Choose(4)
			end := arcEnd[[]int{0, 3, 4, 5}[x.Choose(4)]]
			b.WriteString(arcGroup(rel, rx, ry, rot, fl, end, &cur))
		}
		if x.Bool() {
			b.WriteString(" l 3 4")
		}
		x.conform(svgRoot(model.E("path", "d", b.String())), svg.StrictErrorMode)
	}
}

// flags and numbers written without separators
func runC02Compact(x *X) {
	rel := x.Pick("a", "A")
	n := 1 + x.Choose(2)
	d := "M10 12" + rel
	for i := 0; i < n; i++ {
		rx, s1, ry, s2, rot, s3 := "10", " ", "20", " ", "0", " "
		if n == 1 {
			rx = x.Pick("10", "1.5", ".5")
			s1 = x.Pick(" ", ",", "\n")
			ry = x.Pick("20", ".75")
			s2 = x.Pick(" ", " , ")
			rot = x.Pick("0", "30", "-5", "+5")
			s3 = x.Pick(" ", ",")
		}
		f1 := x.Pick("0", "1")
		s4 := x.Pick("", " ", ",")
		f2 := x.Pick("0", "1")
		s5 := x.Pick("", " ", ",")
		ex := x.Pick("20", ".5", "-7")
		ey := x.Pick(" 3", "-3", ",9")
		if i > 0 {
			d += " "
		}
		d += rx + s1 + ry + s2 + rot + s3 + f1 + s4 + f2 + s5 + ex + ey
	}
	x.conform(svgRoot(model.E("path", "d", d)), svg.StrictErrorMode)
}

func init() {
	register(&Property{ID: "C02", Rule: "every combination of the grid is one arc path; degenerate classes (zero, negative and too small radii, coincident end points) are grid values",
		Assumptions: []string{"arcs are compared by sampling 8 points per emitted curve against the exact ellipse (relative radius tolerance 5e-5 plus quantisation to 1/64 unit)", "real-valued parameters are represented by the grid"},
		Drivers: []*Driver{
			{Name: "single", Quick: -1, Thorough: -1, Run: runC02Single, Note: "8x8 radii x 6 rotations x 4 flags x 10 end points x A/a x preceding or following command (thorough: both)"},
			{Name: "groups2", Quick: -1, Thorough: -1, Run: runC02Groups(2), Note: "two argument groups, each over 4x2 radii x 2 rotations x 4 flags x 4 end points"},
			{Name: "groups3", Quick: -1, Thorough: -1, QuickOff: true, Run: runC02Groups(3), Note: "three argument groups"},
			{Name: "compact", Quick: -1, Thorough: -1, Run: runC02Compact, Note: "separator and flag spelling variants"},
		}})
}

package main

import (
	"strconv"
	"strings"

	"mc/model"

	svg "github.com/lafriks/go-svg"
)

// Path data drivers: all command sequences.

var pathCmds = []string{"L", "l", "H", "h", "V", "v", "C", "c", "S", "s", "Q", "q", "T", "t", "Z", "z", "M", "m"}
var pathArgs = map[string]int{"M": 2, "L": 2, "H": 1, "V": 1, "C": 6, "S": 4, "Q": 4, "T": 2, "Z": 0}

// distinct, position dependent, exactly representable numbers
func argNum(k int) string {
	v := (k*37)%101 - 40
	return strconv.FormatFloat(float64(v)/4, 'f', -1, 64)
}

// dirty is an element drawn before the one under test, leaving the cursor in different states.
var dirtyKinds = 5

func dirtyElement(k int) *model.Node {
	switch k {
	case 1:
		return model.E("path", "d", "M 3 4 C 1 2 3 4 9 9")
	case 2:
		return model.E("path", "d", "M 7 8 Q 1 2 5 6")
	case 3:
		return model.E("path", "d", "M 7 8 L 1 2 z m 4 4 l 5 5")
	case 4:
		return model.E("polyline", "points", "1,2 3,4 5,6")
	}
	return nil
}

// fractions of ten and large values: not representable in 1/64
func argNum10(k int) string {
	v := (k*53)%211 - 80
	return strconv.FormatFloat(float64(v)*10.7, 'f', -1, 64)
}

// large magnitudes with a fraction: at most 8e6, so that three relative steps stay in the 26.6 range
func argNumBig(k int) string {
	v := (k*53)%211 - 100
	return strconv.FormatFloat(float64(v)*41234.0+0.125*float64(k%8), 'f', -1, 64)
}

func runC01(n, maxGroups int) func(x *X) {
	return func(x *X) {
		dirty := 0
		if n <= 3 || x.Thorough {
			dirty = x.Choose(dirtyKinds)
		}
		num := argNum
		if n <= 2 {
			num = []func(int) string{argNum, argNum10, argNumBig}[x.Choose(3)]
		}
		var b strings.Builder
		k := dirty * 7
		emit := func(c string, groups int) {
			b.WriteString(c)
			a := pathArgs[strings.ToUpper(c)]
			for g := 0; g < groups; g++ {
				for i := 0; i < a; i++ {
					b.WriteByte(' ')
					b.WriteString(num(k))
					k++
				}
			}
			b.WriteByte(' ')
		}
		emit([]string{"M", "m"}[x.Choose(2)], 1+x.Choose(maxGroups))
		for i := 0; i < n; i++ {
			c := x.Pick(pathCmds...)
			g := 1
			if c != "Z" && c != "z" {
				g = 1 + x.Choose(maxGroups)
			}
			emit(c, g)
		}
		root := svgRoot()
		if e := dirtyElement(dirty); e != nil {
			root.Add(e)
		}
		root.Add(model.E("path", "d", strings.TrimSpace(b.String())))
		x.conform(root, svg.StrictErrorMode)
	}
}

func runC01Empty(x *X) {
	kinds := []*model.Node{model.E("path", "d", ""), model.E("path", "d", "M 1 2"), model.E("path"), model.E("path", "d", "M1 2 z"),
		model.E("path", "d", "M1 2 L 3 4"), model.E("path", "d", "m1 2 3 4 5 6 z l 1 1")}
	root := svgRoot()
	for i := 0; i < 3; i++ {
		k := *kinds[x.Choose(len(kinds))]
		root.Add(&k)
	}
	x.conform(root, svg.StrictErrorMode)
}

func init() {
	register(&Property{ID: "C01", Rule: "every command sequence of the bound is one execution; all are distinct path data strings",
		Assumptions: []string{"the reference path interpreter (mc/model/path.go) states the SVG grammar correctly", "coordinates are drawn from a fixed position-dependent sequence of distinct multiples of 1/4; longer commands sequences than the bound behave like their suffixes"},
		Drivers: []*Driver{
			{Name: "seq1", Quick: -1, Thorough: -1, Run: runC01(1, 2), Note: "M/m + 1 command x 1..2 groups x 5 preceding elements"},
			{Name: "seq2", Quick: -1, Thorough: -1, Run: runC01(2, 2), Note: "M/m + 2 commands of 18 x 1..2 groups x 5 preceding elements"},
			{Name: "seq3", Quick: -1, Thorough: -1, Run: runC01(3, 2), Note: "M/m + 3 commands of 18 x 1..2 groups x 5 preceding elements"},
			{Name: "seq4", Quick: -1, Thorough: -1, ThoroughOff: true, Run: runC01(4, 1), Note: "M/m + 4 commands of 18, one group each"},
			{Name: "seq4g", Quick: -1, Thorough: -1, QuickOff: true, Run: runC01(4, 2), Note: "M/m + 4 commands of 18 x 1..2 groups x 5 preceding elements"},
			{Name: "seq5", Quick: -1, Thorough: -1, QuickOff: true, Run: runC01(5, 1), Note: "M/m + 5 commands of 18, one group each, x 5 preceding elements"},
			{Name: "short", Quick: -1, Thorough: -1, Run: runC01Empty, Note: "three consecutive short or empty paths"},
		}})
}

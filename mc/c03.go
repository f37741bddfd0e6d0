package main

import (
	"math"
	"strings"

	"mc/model"

	svg "github.com/lafriks/go-svg"
)

// numAutomaton enumerates all strings of the SVG number-list grammar of exactly the given length.
const (
	nStart = iota
	nComma
	nSign
	nInt
	nDot   // '.' that still needs a digit
	nIntD  // digits '.'
	nFrac  // fraction digits
	nE     // exponent mark
	nESign // exponent sign
	nExp   // exponent digits
	nWS    // white space after a number
)

type numEdge struct {
	c  byte
	to int
}

var numWS = []byte{' ', '\t', '\n'}

func numEdges(st int) (out []numEdge) {
	digit := func(to int) { out = append(out, numEdge{'d', to}) }
	add := func(c byte, to int) { out = append(out, numEdge{c, to}) }
	newNum := func() { add('-', nSign); add('+', nSign) }
	ws := func(to int) {
		for _, w := range numWS {
			add(w, to)
		}
	}
	switch st {
	case nStart, nComma:
		digit(nInt)
		add('.', nDot)
		newNum()
		ws(st)
	case nSign:
		digit(nInt)
		add('.', nDot)
	case nInt:
		digit(nInt)
		add('.', nIntD)
		newNum()
		add('e', nE)
		add('E', nE)
		ws(nWS)
		add(',', nComma)
	case nDot:
		digit(nFrac)
	case nIntD, nFrac:
		digit(nFrac)
		add('.', nDot)
		newNum()
		add('e', nE)
		add('E', nE)
		ws(nWS)
		add(',', nComma)
	case nE:
		digit(nExp)
		add('+', nESign)
		add('-', nESign)
	case nESign:
		digit(nExp)
	case nExp:
		// a second exponent digit is left out to keep values in range
		add('.', nDot)
		newNum()
		ws(nWS)
		add(',', nComma)
	case nWS:
		digit(nInt)
		add('.', nDot)
		newNum()
		ws(nWS)
		add(',', nComma)
	}
	return
}

func numAccept(st int) bool {
	return st == nInt || st == nIntD || st == nFrac || st == nExp || st == nWS
}

func runC03(lq, lt int) func(x *X) {
	return func(x *X) {
		n := lq
		if x.Thorough {
			n = lt
		}
		l := 1 + x.Choose(n)
		var b []byte
		st := nStart
		for i := 0; i < l; i++ {
			e := numEdges(st)
			k := e[x.Choose(len(e))]
			c := k.c
			if c == 'd' {
				c = "1357924680"[i%10]
				if k.to == nExp {
					c = '0' + byte(1+i%3)
				}
			}
			b = append(b, c)
			st = k.to
			x.StateH(uint64(st*64 + i))
		}
		if !numAccept(st) {
			x.Skip()
		}
		s := string(b)
		list, ok := model.NumberList(s)
		if !ok {
			panic("harness: automaton and lexer disagree on " + s)
		}
		for _, v := range list {
			if math.Abs(v) > 1e6 {
				x.Skip()
			}
		}
		root := model.E("svg")
		if len(list) == 4 {
			root.Set("viewBox", s)
		} else {
			root.Set("viewBox", "0 0 10 10")
		}
		root.Add(model.E("path", "d", "M0 0H"+s))
		if len(list)%2 == 0 {
			root.Add(model.E("path", "d", "M"+s+"L 1 2"))
			if len(list) >= 4 {
				root.Add(model.E("polyline", "points", s), model.E("polygon", "points", s))
			}
		}
		if len(list) == 7 && x.Thorough {
			root.Add(model.E("path", "d", "M1 1Q"+strings.Join([]string{s, "9"}, " ")))
		}
		x.conform(root, svg.StrictErrorMode)
	}
}

// longer lists: a number before and after, chosen from spelling classes, with every separator
func runC03Pairs(x *X) {
	nums := []string{"12", "-12", "+12", ".5", "-.5", "+.5", "3.", "3.25", "-3.25", "1e2", "1E2", "1e+2", "1E-2", "-1.5e-1", ".5e1", "3.e1", "0", "-0", "007", "100000"}
	seps := []string{" ", ",", " ,", ", ", "\t", "\n", "\r\n", "  ", " , ", ""}
	k := 2
	if x.Thorough {
		k = 3
	}
	s := x.Pick("", " ", "\n")
	for i := 0; i < k; i++ {
		if i > 0 {
			s += x.Pick(seps...)
		}
		s += x.Pick(nums...)
	}
	s += x.Pick("", " ", "\t")
	list, ok := model.NumberList(s)
	if !ok {
		x.Skip()
	}
	for _, v := range list {
		if math.Abs(v) > 1e6 {
			x.Skip()
		}
	}
	root := svgRoot(model.E("path", "d", "M0 0V"+s))
	if len(list)%2 == 0 {
		root.Add(model.E("path", "d", "M"+s+"z"), model.E("polygon", "points", s+" 8 9"))
	}
	x.conform(root, svg.StrictErrorMode)
}

// command letters directly next to numbers
func runC03Cmds(x *X) {
	d := x.Pick("M", " M", "\tM ") + x.Pick("1,2", "1-2", "1.5.5", " 1 2 ", "1e1-2", "1E1,2")
	for i := 0; i < 2; i++ {
		d += x.Pick("", " ", "\n", "\r") + x.Pick("L", "l ", "T", "t\n")
		d += x.Pick("1,2", "-1-2", "+1+2", ".5.5", "1e1.5", "1E-1,2", "1e1 3", "5.25,-.5", "1 2,3 4", "1,2-3,4")
	}
	d += x.Pick("", "z", " Z ")
	x.conform(svgRoot(model.E("path", "d", d)), svg.StrictErrorMode)
}

func init() {
	register(&Property{ID: "C03", Rule: "each execution is one string accepted by the number-list automaton (mc/c03.go), used in path data, point lists and viewBox",
		Assumptions: []string{"digits are position dependent; exponents have one digit; values above 1e6 are skipped because coordinates are 26.6 fixed point"},
		Drivers: []*Driver{
			{Name: "strings", Quick: -1, Thorough: -1, Run: runC03(8, 10), Note: "all grammar strings of length 1..8 (thorough 1..10) over {digit . - + e E space tab newline comma}"},
			{Name: "pairs", Quick: -1, Thorough: -1, Run: runC03Pairs, Note: "2 (thorough 3) numbers of 20 spellings x 10 separators x surrounding white space"},
			{Name: "commands", Quick: -1, Thorough: -1, Run: runC03Cmds, Note: "command letters adjacent to number spellings"},
		}})
}

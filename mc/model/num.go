package model

import (
	"math"
	"strconv"
	"strings"
)

// ---- SVG number grammar ----

func isWS(c byte) bool    { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' }
func isDigit(c byte) bool { return c >= '0' && c <= '9' }

// ScanNumber reads one number at position i: sign? (digits ('.' digits?)? | '.' digits) ([eE] sign? digits)?
// Longest match; ok is false when there is none.
func ScanNumber(s string, i int) (val float64, j int, ok bool) {
	j = i
	if j < len(s) && (s[j] == '+' || s[j] == '-') {
		j++
	}
	d := 0
	for j < len(s) && isDigit(s[j]) {
		j++
		d++
	}
	if j < len(s) && s[j] == '.' {
		k := j + 1
		f := 0
		for k < len(s) && isDigit(s[k]) {
			k++
			f++
		}
		if d+f > 0 {
			j = k
			d += f
		}
	}
	if d == 0 {
		return 0, i, false
	}
	if j < len(s) && (s[j] == 'e' || s[j] == 'E') {
		k := j + 1
		if k < len(s) && (s[k] == '+' || s[k] == '-') {
			k++
		}
		e := 0
		for k < len(s) && isDigit(s[k]) {
			k++
			e++
		}
		if e > 0 {
			j = k
		}
	}
	v, err := strconv.ParseFloat(s[i:j], 64)
	if err != nil {
		return 0, i, false
	}
	return v, j, true
}

// NumberList parses wsp* number (comma-wsp? number)* wsp*; ok is false when the text is not of that form.
func NumberList(s string) (out []float64, ok bool) {
	i := skipWS(s, 0)
	for i < len(s) {
		if len(out) > 0 {
			if s[i] == ',' {
				i = skipWS(s, i+1)
			}
		}
		v, j, okn := ScanNumber(s, i)
		if !okn {
			return nil, false
		}
		out = append(out, v)
		i = skipWS(s, j)
	}
	return out, true
}

func skipWS(s string, i int) int {
	for i < len(s) && isWS(s[i]) {
		i++
	}
	return i
}

// ---- lengths ----

// Ref is what a percentage refers to.
type Ref int

const (
	RefW Ref = iota
	RefH
	RefDiag
)

// VB is a viewBox.
type VB struct{ X, Y, W, H float64 }

var unitPx = map[string]float64{"": 1, "px": 1, "in": 96, "cm": 96 / 2.54, "mm": 96 / 25.4, "pt": 96.0 / 72, "pc": 16, "Q": 96 / 101.6}

// Length resolves a length.
func Length(s string, vb VB, ref Ref) (float64, bool) {
	s = strings.TrimSpace(s)
	v, j, ok := ScanNumber(s, 0)
	if !ok {
		return 0, false
	}
	u := strings.TrimSpace(s[j:])
	if u == "%" {
		switch ref {
		case RefW:
			return v / 100 * vb.W, true
		case RefH:
			return v / 100 * vb.H, true
		default:
			return v / 100 * math.Sqrt((vb.W*vb.W+vb.H*vb.H)/2), true
		}
	}
	f, okU := unitPx[u]
	if !okU {
		return 0, false
	}
	return v * f, true
}

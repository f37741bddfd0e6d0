package model

import (
	"math"
	"strconv"
	"strings"
)

// RGB is an opaque colour.
type RGB struct{ R, G, B uint8 }

// Paint is a fill or stroke paint.
type Paint struct {
	None bool
	C    RGB
	G    *Grad
}

// Style holds all style properties of a shape.
type Style struct {
	Fill, Stroke         Paint
	FillOp, StrokeOp     float64
	Width                float64
	NonZero              bool
	Miter                float64
	Join, Cap, Lead, Gap string
	Dash                 []float64
	DashOff              float64
	Masks                []string
	M                    Mat
}

// Default is the documented default style.
func Default() Style {
	return Style{Fill: Paint{}, Stroke: Paint{None: true}, FillOp: 1, StrokeOp: 1, Width: 2, NonZero: true, Miter: 4,
		Join: "bevel", Cap: "butt", Lead: "", Gap: "", M: I}
}

// Names is the SVG colour keyword table (SVG 1.1, section 4.4).
var Names = map[string]RGB{}

func init() {
	for _, l := range strings.Fields(colourTable) {
		k, v, _ := strings.Cut(l, "=")
		n, err := strconv.ParseUint(v, 16, 32)
		if err != nil {
			panic(l)
		}
		Names[k] = RGB{uint8(n >> 16), uint8(n >> 8), uint8(n)}
	}
}

func hexv(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// Colour reads a colour; ok is false when it is not one.
func Colour(s string) (c RGB, none, ok bool) {
	if strings.EqualFold(s, "none") {
		return RGB{}, true, true
	}
	if v, is := Names[strings.ToLower(s)]; is {
		return v, false, true
	}
	if strings.HasPrefix(s, "#") {
		var d []int
		for i := 1; i < len(s); i++ {
			h := hexv(s[i])
			if h < 0 {
				return RGB{}, false, false
			}
			d = append(d, h)
		}
		switch len(d) {
		case 3:
			return RGB{uint8(d[0] * 17), uint8(d[1] * 17), uint8(d[2] * 17)}, false, true
		case 6:
			return RGB{uint8(d[0]*16 + d[1]), uint8(d[2]*16 + d[3]), uint8(d[4]*16 + d[5])}, false, true
		}
		return RGB{}, false, false
	}
	if strings.HasPrefix(s, "rgb(") && strings.HasSuffix(s, ")") {
		parts := strings.Split(s[4:len(s)-1], ",")
		if len(parts) != 3 {
			return RGB{}, false, false
		}
		var v [3]uint8
		for i, p := range parts {
			p = strings.TrimSpace(p)
			pc := strings.HasSuffix(p, "%")
			n, err := strconv.Atoi(strings.TrimSpace(strings.TrimSuffix(p, "%")))
			if err != nil {
				return RGB{}, false, false
			}
			if pc {
				if n < 0 {
					n = 0
				}
				if n > 100 {
					n = 100
				}
				n = n * 255 / 100
			}
			if n < 0 {
				n = 0
			}
			if n > 255 {
				n = 255
			}
			v[i] = uint8(n)
		}
		return RGB{v[0], v[1], v[2]}, false, true
	}
	return RGB{}, false, false
}

// Transform reads a transform list.
func Transform(s string) (Mat, bool) {
	m := I
	for {
		s = strings.TrimLeft(s, " \t\n\r,")
		if s == "" {
			return m, true
		}
		i := strings.IndexByte(s, '(')
		j := strings.IndexByte(s, ')')
		if i < 0 || j < i {
			return m, false
		}
		name := strings.ToLower(strings.TrimSpace(s[:i]))
		a, ok := NumberList(s[i+1 : j])
		if !ok {
			return m, false
		}
		s = s[j+1:]
		f, ok := elementary(name, a)
		if !ok {
			return m, false
		}
		m = m.Mul(f)
	}
}

func elementary(name string, a []float64) (Mat, bool) {
	r := func(d float64) float64 { return d * math.Pi / 180 }
	switch name {
	case "translate":
		switch len(a) {
		case 1:
			return Mat{1, 0, 0, 1, a[0], 0}, true
		case 2:
			return Mat{1, 0, 0, 1, a[0], a[1]}, true
		}
	case "scale":
		switch len(a) {
		case 1:
			return Mat{a[0], 0, 0, a[0], 0, 0}, true
		case 2:
			return Mat{a[0], 0, 0, a[1], 0, 0}, true
		}
	case "rotate":
		if len(a) == 1 || len(a) == 3 {
			c, s := math.Cos(r(a[0])), math.Sin(r(a[0]))
			m := Mat{c, s, -s, c, 0, 0}
			if len(a) == 3 {
				m = Mat{1, 0, 0, 1, a[1], a[2]}.Mul(m).Mul(Mat{1, 0, 0, 1, -a[1], -a[2]})
			}
			return m, true
		}
	case "skewx":
		if len(a) == 1 {
			return Mat{1, 0, math.Tan(r(a[0])), 1, 0, 0}, true
		}
	case "skewy":
		if len(a) == 1 {
			return Mat{1, math.Tan(r(a[0])), 0, 1, 0, 0}, true
		}
	case "matrix":
		if len(a) == 6 {
			return Mat{a[0], a[1], a[2], a[3], a[4], a[5]}, true
		}
	}
	return I, false
}

const colourTable = `
aliceblue=f0f8ff antiquewhite=faebd7 aqua=00ffff aquamarine=7fffd4 azure=f0ffff beige=f5f5dc bisque=ffe4c4 black=000000
blanchedalmond=ffebcd blue=0000ff blueviolet=8a2be2 brown=a52a2a burlywood=deb887 cadetblue=5f9ea0 chartreuse=7fff00
chocolate=d2691e coral=ff7f50 cornflowerblue=6495ed cornsilk=fff8dc crimson=dc143c cyan=00ffff darkblue=00008b
darkcyan=008b8b darkgoldenrod=b8860b darkgray=a9a9a9 darkgreen=006400 darkgrey=a9a9a9 darkkhaki=bdb76b
darkmagenta=8b008b darkolivegreen=556b2f darkorange=ff8c00 darkorchid=9932cc darkred=8b0000 darksalmon=e9967a
darkseagreen=8fbc8f darkslateblue=483d8b darkslategray=2f4f4f darkslategrey=2f4f4f darkturquoise=00ced1
darkviolet=9400d3 deeppink=ff1493 deepskyblue=00bfff dimgray=696969 dimgrey=696969 dodgerblue=1e90ff firebrick=b22222
floralwhite=fffaf0 forestgreen=228b22 fuchsia=ff00ff gainsboro=dcdcdc ghostwhite=f8f8ff gold=ffd700 goldenrod=daa520
gray=808080 grey=808080 green=008000 greenyellow=adff2f honeydew=f0fff0 hotpink=ff69b4 indianred=cd5c5c indigo=4b0082
ivory=fffff0 khaki=f0e68c lavender=e6e6fa lavenderblush=fff0f5 lawngreen=7cfc00 lemonchiffon=fffacd lightblue=add8e6
lightcoral=f08080 lightcyan=e0ffff lightgoldenrodyellow=fafad2 lightgray=d3d3d3 lightgreen=90ee90 lightgrey=d3d3d3
lightpink=ffb6c1 lightsalmon=ffa07a lightseagreen=20b2aa lightskyblue=87cefa lightslategray=778899
lightslategrey=778899 lightsteelblue=b0c4de lightyellow=ffffe0 lime=00ff00 limegreen=32cd32 linen=faf0e6
magenta=ff00ff maroon=800000 mediumaquamarine=66cdaa mediumblue=0000cd mediumorchid=ba55d3 mediumpurple=9370db
mediumseagreen=3cb371 mediumslateblue=7b68ee mediumspringgreen=00fa9a mediumturquoise=48d1cc mediumvioletred=c71585
midnightblue=191970 mintcream=f5fffa mistyrose=ffe4e1 moccasin=ffe4b5 navajowhite=ffdead navy=000080 oldlace=fdf5e6
olive=808000 olivedrab=6b8e23 orange=ffa500 orangered=ff4500 orchid=da70d6 palegoldenrod=eee8aa palegreen=98fb98
paleturquoise=afeeee palevioletred=db7093 papayawhip=ffefd5 peachpuff=ffdab9 peru=cd853f pink=ffc0cb plum=dda0dd
powderblue=b0e0e6 purple=800080 red=ff0000 rosybrown=bc8f8f royalblue=4169e1 saddlebrown=8b4513 salmon=fa8072
sandybrown=f4a460 seagreen=2e8b57 seashell=fff5ee sienna=a0522d silver=c0c0c0 skyblue=87ceeb slateblue=6a5acd
slategray=708090 slategrey=708090 snow=fffafa springgreen=00ff7f steelblue=4682b4 tan=d2b48c teal=008080
thistle=d8bfd8 tomato=ff6347 turquoise=40e0d0 violet=ee82ee wheat=f5deb3 white=ffffff whitesmoke=f5f5f5
yellow=ffff00 yellowgreen=9acd32
`

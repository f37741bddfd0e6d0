package main

import (
	"fmt"
	"strings"

	"mc/model"

	svg "github.com/lafriks/go-svg"
)

// survive parses a text in one mode and draws what was accepted; only panics, crashes, hangs and nil
// documents count.
func (x *X) survive(text string, mode svg.ErrorMode, draw bool) {
	p := x.parse(text, mode)
	if p.err != nil {
		x.Outcome("error " + p.err.Error())
		return
	}
	x.OutcomeH(docHash(p.s))
	if draw {
		x.drawAll(p.s, 12, 8)
	}
}

var hostileTokens = []string{"", "1", "-", ".", "e", "%", "(", ")", "#", "url(", ",", " ", "M", "NaN", "1e999", "\u00e9", "none", "rgb(", "px", ";", ":", "0", "scale(", "-7", "#a", "inf", "0x1"}

// every attribute any element reads, with a context in which it matters
var hostilePlaces = []struct{ elem, attr, more string }{
	{"svg", "viewBox", ""}, {"svg", "width", ""}, {"svg", "height", ""},
	{"rect", "x", "width='5' height='4'"}, {"rect", "width", "height='4'"}, {"rect", "rx", "width='5' height='4'"}, {"rect", "ry", "rx='1' width='5' height='4'"},
	{"circle", "r", ""}, {"circle", "cx", "r='3'"}, {"ellipse", "rx", "ry='3'"}, {"line", "x1", ""}, {"line", "y2", "x2='4'"},
	{"polyline", "points", ""}, {"polygon", "points", ""}, {"path", "d", ""}, {"use", "href", ""}, {"use", "x", "href='#a'"}, {"use", "xlink:href", ""},
	{"linearGradient", "id", ""}, {"linearGradient", "x1", "id='l'"}, {"linearGradient", "gradientUnits", "id='l'"}, {"linearGradient", "gradientTransform", "id='l'"}, {"linearGradient", "spreadMethod", "id='l'"},
	{"radialGradient", "r", "id='l'"}, {"radialGradient", "fx", "id='l'"}, {"radialGradient", "fr", "id='l'"},
	{"stop", "offset", ""}, {"stop", "stop-color", ""}, {"stop", "stop-opacity", ""}, {"stop", "style", ""},
	{"mask", "id", ""}, {"mask", "x", "id='m'"}, {"mask", "width", "id='m'"},
	{"g", "fill", ""}, {"g", "stroke", ""}, {"g", "fill-rule", ""}, {"g", "stroke-width", ""}, {"g", "stroke-linecap", ""}, {"g", "stroke-linejoin", ""}, {"g", "stroke-miterlimit", ""},
	{"g", "stroke-dasharray", ""}, {"g", "stroke-dashoffset", "stroke-dasharray='1 2'"}, {"g", "opacity", ""}, {"g", "fill-opacity", ""}, {"g", "transform", ""}, {"g", "mask", ""}, {"g", "style", ""}, {"g", "id", ""}, {"title", "style", ""}, {"defs", "id", ""},
}

func runC14Attr(n, nt int) func(x *X) {
	return func(x *X) {
		p := hostilePlaces[x.Choose(len(hostilePlaces))]
		m := n
		if x.Thorough {
			m = nt
		}
		v := ""
		for i := 0; i < m; i++ {
			k := x.Choose(len(hostileTokens))
			if k == 0 {
				break
			}
			v += hostileTokens[k]
		}
		text := hostileText(p.elem, p.attr, p.more, v)
		x.Desc(func() string { return text })
		x.State(p.elem, p.attr, v)
		x.survive(text, svg.ErrorMode(x.Choose(3)), true)
	}
}

var pathTokens = []string{"M", "m", "L", "h", "V", "C", "s", "Q", "t", "A", "Z", "1", "-2.5", "0", " ", ",", ".", "e", "1 2", "1 2 3 4 5", "3 4 0 0 1 5 6 ", "M1 2", "\u00e9", "B", "+", "e9"}

func runC14Path(n, nt int) func(x *X) {
	return func(x *X) {
		m := n
		if x.Thorough {
			m = nt
		}
		d := ""
		for i := 0; i < m; i++ {
			k := x.Choose(len(pathTokens) + 1)
			if k == 0 {
				break
			}
			d += pathTokens[k-1]
		}
		text := `<svg viewBox="0 0 12 8"><path stroke="red" stroke-linejoin="arc" stroke-dasharray="2 1" d="` + d + `"/></svg>`
		x.Desc(func() string { return text })
		x.State(d)
		x.survive(text, svg.IgnoreErrorMode, true)
	}
}

var allElements = []string{"svg", "g", "line", "stop", "rect", "circle", "polygon", "path", "desc", "defs", "title", "linearGradient", "radialGradient", "mask", "use", "unknown"}

var elemAttrs = map[string]string{"line": `x2="5"`, "stop": `offset="0.5"`, "rect": `width="4" height="3" rx="1"`, "circle": `r="3"`, "polygon": `points="1 2 5 4 3 6"`, "path": `d="M1 1q3 3 6 0z"`, "use": `href="#n0"`}

// all element trees, whatever sense they make
func runC14Tree(n int) func(x *X) {
	return func(x *X) {
		kids := x.forest(n, func(i int, leaf bool) *model.Node {
			return &model.Node{Name: allElements[x.Choose(len(allElements))], Text: fmt.Sprint(i)}
		})
		var b strings.Builder
		var write func(k *model.Node)
		write = func(k *model.Node) {
			fmt.Fprintf(&b, `<%s id="n%s" %s>t`, k.Name, k.Text, elemAttrs[k.Name])
			for _, c := range k.Kids {
				write(c)
			}
			fmt.Fprintf(&b, `</%s>`, k.Name)
		}
		b.WriteString(`<svg viewBox="0 0 12 8" fill="url(#n0)" stroke="url(#n1)" mask="url(#n0)"><defs><line id="n9"/></defs>`)
		for _, k := range kids {
			write(k)
		}
		b.WriteString(`<line x2="4" y2="3" mask="url(#n1)"/></svg>`)
		text := b.String()
		x.Desc(func() string { return text })
		x.State(text)
		x.survive(text, svg.ErrorMode(x.Choose(3)), true)
	}
}

// reference graphs between definitions, and between masks
func runC14Refs(n, nt int) func(x *X) {
	return func(x *X) {
		m := n
		if x.Thorough {
			m = nt
		}
		masks := x.Bool()
		var b strings.Builder
		b.WriteString(`<svg viewBox="0 0 12 8"><defs>`)
		for i := 0; i < m; i++ {
			if masks {
				fmt.Fprintf(&b, `<mask id="n%d">`, i)
			} else {
				fmt.Fprintf(&b, `<g id="n%d">`, i)
			}
			for j := 0; j < m; j++ {
				if x.Bool() {
					if masks {
						fmt.Fprintf(&b, `<rect width="9" height="9" mask="url(#n%d)"/>`, j)
					} else {
						fmt.Fprintf(&b, `<use href="#n%d"/>`, j)
					}
				}
			}
			if masks {
				b.WriteString("</mask>")
			} else {
				b.WriteString("<line x2='5'/></g>")
			}
		}
		b.WriteString("</defs>")
		k := x.Choose(m)
		if masks {
			fmt.Fprintf(&b, `<rect width="9" height="9" mask="url(#n%d)"/>`, k)
		} else {
			fmt.Fprintf(&b, `<use href="#n%d"/>`, k)
		}
		b.WriteString("</svg>")
		text := b.String()
		x.Desc(func() string { return text })
		x.State(text)
		x.survive(text, svg.IgnoreErrorMode, true)
	}
}

// deep structures
func runC14Deep(x *X) {
	depth := []int{10, 1000, 20000}[x.Choose(3)]
	kind := x.Choose(14)
	var text string
	rep := strings.Repeat
	shape := `<path d="M1 1L5 5 3 2z" stroke="red"/>`
	wrap := func(open, close string) string { return rep(open, depth) + shape + rep(close, depth) }
	chain := depth
	if chain > 1000 {
		chain = 300
	}
	switch kind {
	case 0:
		text = wrap("<g>", "</g>")
	case 1:
		text = wrap(`<g transform="translate(0.001)" opacity="0.99">`, "</g>")
	case 2:
		text = wrap("<defs>", "</defs>")
	case 3:
		text = wrap(`<mask id="m">`, "</mask>")
	case 4:
		text = wrap(`<linearGradient id="m">`, "</linearGradient>")
	case 5:
		text = wrap("<unknown>", "</unknown>")
	case 6:
		text = wrap("<title>", "</title>")
	case 7: // chain of uses
		text = `<defs><g id="u0">` + shape + `</g>`
		for i := 1; i <= chain; i++ {
			text += fmt.Sprintf(`<use id="u%d" href="#u%d" x="0.001"/>`, i, i-1)
		}
		text += fmt.Sprintf(`</defs><use href="#u%d"/>`, chain)
	case 8: // chain of masks
		for i := 1; i <= chain; i++ {
			text += fmt.Sprintf(`<mask id="m%d"><rect width="9" height="9" fill="white" mask="url(#m%d)"/></mask>`, i, i-1)
		}
		text += fmt.Sprintf(`<rect width="9" height="9" mask="url(#m%d)"/>`, chain)
	case 9: // nested masked groups
		for i := 0; i < chain; i++ {
			text += fmt.Sprintf(`<g mask="url(#m%d)">`, i)
		}
		text += shape + rep("</g>", chain)
	case 10:
		text = `<path stroke="red" d="M0 0` + rep("l1 1t1-2z", depth) + `"/>`
	case 11:
		text = `<g transform="` + rep("rotate(1)", depth) + `">` + shape + `</g>`
	case 12:
		text = `<linearGradient id="l">` + rep(`<stop offset="0.5" stop-color="red"/>`, depth/10) + `</linearGradient><rect width="5" height="5" fill="url(#l)"/>`
	case 13:
		text = `<g style="` + rep("stroke-dasharray:1 2 3;", depth) + `">` + shape + `</g>`
	}
	text = `<svg viewBox="0 0 12 8">` + text + `</svg>`
	x.Desc(func() string { return fmt.Sprintf("structure %d of depth %d", kind, depth) })
	x.State(kind, depth)
	x.survive(text, svg.ErrorMode(x.Choose(3)), kind != 10 || depth < 20000)
}

const mutantDoc = `<svg viewBox="0 0 12 8"><title>t</title><defs><g id="d"><rect width="5%" height="4" rx="1"/></g></defs><mask id="m"><circle r="6" fill="#fff"/></mask><linearGradient id="l" gradientTransform="rotate(9)"><stop offset="50%" style="stop-color:red"/></linearGradient><g transform="scale(2) matrix(1,0,0,1,0,1)" style="stroke:rgb(1,2,3);stroke-dasharray:2,1" fill="url(#l)" mask="url(#m)"><path d="M1 1a2 3 4 0 1 5,6S1e0 2-3.5 4z"/><polygon points="1,2 3 4-5 6"/></g><use href="#d" x="1cm"/></svg>`

// every single byte replaced by every byte, dropped or doubled
func runC14Bytes(x *X) {
	d := mutantDoc
	i := x.Choose(len(d))
	var text string
	if x.Thorough {
		b := x.Choose(258)
		switch b {
		case 256:
			text = d[:i] + d[i+1:]
		case 257:
			text = d[:i] + d[i:i+1] + d[i:]
		default:
			text = d[:i] + string([]byte{byte(b)}) + d[i+1:]
		}
	} else {
		set := "\x00\x01\n \t\"#$%&'()*+,-./09:;<=>?AEMZ[]_aez{|}~\x7f\x80\xc3\xff"
		b := x.Choose(len(set) + 2)
		switch {
		case b == len(set):
			text = d[:i] + d[i+1:]
		case b > len(set):
			text = d[:i] + d[i:i+1] + d[i:]
		default:
			text = d[:i] + set[b:b+1] + d[i+1:]
		}
	}
	x.Desc(func() string { return fmt.Sprintf("%q", text) })
	x.State(text)
	x.survive(text, svg.IgnoreErrorMode, true)
}

// one chunk of the document removed
func runC14Cuts(x *X) {
	d := mutantDoc
	i := x.Choose(len(d) + 1)
	n := len(d) - i
	if !x.Thorough && n > 24 {
		n = 24
	}
	j := x.Choose(n + 1)
	text := d[:i] + d[i+j:]
	x.Desc(func() string { return fmt.Sprintf("%q", text) })
	x.State(text)
	x.survive(text, svg.IgnoreErrorMode, true)
}

// degenerate strokes: dashes, widths, joins, caps on degenerate geometry
func runC14Stroke(x *X) {
	n := model.E("path")
	n.Set("d", x.Pick("M1 1", "M1 1z", "M1 1L1 1", "M1 1L1 1z", "M1 1L9 1 1 1", "M1 1L9 1 9 1 9 7z", "M0 0C0 0 0 0 0 0", "M1 1Q5 5 1 1", "M1 1A2 2 0 1 1 1 1.01z", "M1 1h5M2 2M3 3z", "M5 5L5.01 5 5 5.01z", "M-9 -9L30 20", "M1 1z z z L5 5", "M1 1C9 1 1 7 9 7S1 1 1 1z"))
	n.Set("stroke", "red")
	n.Set("stroke-dasharray", x.Pick("none", "0", "0 0", "1", "3 0", "0 3", "-1 2", "0.05 0.05", "1e-9", "1e30", "5 3 1", "1e5", "", "0.07", "1e300 1e300 1e300"))
	n.Set("stroke-dashoffset", x.Pick("0", "-3", "2.5", "1e30", "-1e9", "1e300"))
	n.Set("stroke-width", x.Pick("1", "0", "-2", "30", "1e-9"))
	n.Set("stroke-linejoin", x.Pick("miter", "round", "bevel", "arc", "arc-clip", "miter-clip"))
	if x.Thorough {
		n.Set("stroke-linecap", x.Pick("butt", "round", "square", "cubic", "quadratic"))
		n.Set("stroke-linegap", x.Pick("flat", "round", "cubic", "quadratic"))
		n.Set("stroke-miterlimit", x.Pick("4", "0", "-1", "1e9"))
		n.Set("transform", x.Pick("", "scale(0)", "scale(1,0)"))
	} else {
		switch x.Choose(4) {
		case 1:
			n.Set("stroke-linecap", "round").Set("stroke-linegap", "cubic")
		case 2:
			n.Set("stroke-linecap", "quadratic").Set("stroke-linegap", "quadratic").Set("stroke-miterlimit", "0")
		case 3:
			n.Set("stroke-linecap", "square").Set("stroke-linegap", "round").Set("transform", "scale(1,0)")
		}
	}
	text := `<svg viewBox="0 0 12 8">` + n.XML() + `</svg>`
	x.Desc(func() string { return text })
	x.State(text)
	x.survive(text, svg.IgnoreErrorMode, true)
}

// values outside any drawable range
func runC14Huge(x *X) {
	big := x.Pick("1e5", "3e5", "5e5", "1e7", "33554431", "33554432", "4e7", "1e9", "1e30", "1e300", "-1e5", "-5e5", "-33554433", "-1e30", "1e-30", "1e-300", "67108864")
	var text string
	k := x.Choose(22)
	switch k {
	case 0:
		text = `<path d="M0 0L` + big + ` 5 5 5z"/>`
	case 1:
		text = `<path d="M0 0L5 ` + big + ` 5 5z"/>`
	case 2:
		text = `<path d="M` + big + ` 0L5 5v3z"/>`
	case 3:
		text = `<path d="M0 0h` + big + `v` + big + `z"/>`
	case 4:
		text = `<path d="M0 0A` + big + ` 5 0 0 1 4 4"/>`
	case 5:
		text = `<path d="M0 0A5 5 ` + big + ` 0 1 4 4"/>`
	case 6:
		text = `<rect x="` + big + `" width="5" height="4"/>`
	case 7:
		text = `<rect y="` + big + `" rx="2" width="5" height="4"/>`
	case 8:
		text = `<circle r="3" cx="` + big + `"/>`
	case 9:
		text = `<line x2="` + big + `" y2="` + big + `" stroke="red"/>`
	case 10:
		text = `<polygon points="0 0 ` + big + ` 5 5 5"/>`
	case 11:
		text = `<rect width="5" height="4" stroke="red" stroke-width="` + big + `"/>`
	case 12:
		text = `<rect width="5" height="4" stroke="red" transform="translate(` + big + `)"/>`
	case 13:
		text = `<rect width="5" height="4" transform="scale(` + big + `)"/>`
	case 14:
		text = `<rect width="5" height="4" transform="scale(` + big + `) scale(` + big + `) translate(4 4)"/>`
	case 15:
		text = `<rect width="5" height="4" stroke="red" transform="rotate(` + big + `)"/>`
	case 16:
		text = `<rect width="5" height="4" stroke="red" transform="skewX(` + big + `)"/>`
	case 17:
		text = `<linearGradient id="l" gradientUnits="userSpaceOnUse" x1="` + big + `"><stop offset="0" stop-color="red"/><stop offset="` + big + `" stop-color="blue" stop-opacity="` + big + `"/></linearGradient><rect width="5" height="4" fill="url(#l)"/>`
	case 18:
		text = `<radialGradient id="l" r="` + big + `" fx="` + big + `" spreadMethod="repeat"><stop offset="0" stop-color="red"/><stop offset="1" stop-color="blue"/></radialGradient><rect width="5" height="4" fill="url(#l)"/>`
	case 19:
		text = `<linearGradient id="l" gradientTransform="scale(` + big + `)" spreadMethod="reflect"><stop offset="0" stop-color="red"/><stop offset="1" stop-color="blue"/></linearGradient><rect width="5" height="4" fill="url(#l)"/>`
	case 20:
		text = `<g opacity="` + big + `"><rect width="5" height="4" stroke="red" stroke-miterlimit="` + big + `"/></g>`
	case 21:
		text = `<defs><rect id="d" width="5" height="4"/></defs><use href="#d" x="` + big + `"/><mask id="m" x="` + big + `"/>`
	}
	vb := "0 0 12 8"
	switch x.Choose(3) {
	case 1:
		vb = "0 0 " + big + " 8"
	case 2:
		vb = big + " 0 12 " + big
	}
	text = `<svg viewBox="` + vb + `">` + text + `</svg>`
	x.Desc(func() string { return text })
	x.State(text)
	x.survive(text, svg.IgnoreErrorMode, true)
}

func init() {
	register(&Property{ID: "C14", Rule: "each execution is one input text, parsed in one mode and, when accepted, drawn by all three renderers; a panic, crash, hang (60 s) or memory blow-up (2 GB) is a violation",
		Assumptions: []string{"bounded time is observed as 60 s per execution; large coordinates combined with large widths or fine dashes are slow but finite and not enumerated"},
		Drivers: []*Driver{
			{Name: "attr", Quick: -1, Thorough: -1, Run: runC14Attr(3, 3), Note: "50 attribute places x all strings of <= 3 of 26 hostile tokens x 3 modes"},
			{Name: "path", Quick: -1, Thorough: -1, Run: runC14Path(3, 4), Note: "path data of <= 3 (4) of 26 tokens"},
			{Name: "tree3", Quick: -1, Thorough: -1, Run: runC14Tree(3), Note: "all element trees of 3 nodes of 16 kinds x 3 modes"},
			{Name: "tree4", Quick: -1, Thorough: -1, QuickOff: true, Run: runC14Tree(4), Note: "all element trees of 4 nodes of 16 kinds x 3 modes"},
			{Name: "refs", Quick: -1, Thorough: -1, Run: runC14Refs(3, 4), Note: "all reference graphs on 3 (4) definitions or masks"},
			{Name: "deep", Quick: -1, Thorough: -1, Run: runC14Deep, Note: "14 structures at depth 10, 1000, 20000 (reference chains <= 1000)"},
			{Name: "bytes", Quick: -1, Thorough: -1, Run: runC14Bytes, Note: "every byte of a document replaced by 43 (all 256) bytes, dropped, doubled"},
			{Name: "cuts", Quick: -1, Thorough: -1, Run: runC14Cuts, Note: "every chunk of <= 24 (any number of) bytes removed"},
			{Name: "stroke", Quick: -1, Thorough: -1, Run: runC14Stroke, Note: "14 degenerate paths x dashes x offsets x widths x joins x caps"},
			{Name: "huge", Quick: -1, Thorough: -1, Run: runC14Huge, Note: "17 extreme values at 22 places x viewBox"},
		}})
}

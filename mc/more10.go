package main

import (
	"fmt"
	"strings"

	"mc/model"

	"github.com/fogleman/gg"
	svg "github.com/lafriks/go-svg"
)

// ---- C06: all pairs of settings ----

var richStyles = func() (out [][2]string) {
	more := map[string][]string{
		"stroke-miterlimit": {"0", "4", "1", "0.5", "100"}, "stroke-dasharray": {"", "0", "1 1", "10%"}, "stroke-dashoffset": {"10%", "1000"},
		"stroke-width": {"1", "2", "0.5", "1000"}, "fill": {"black", "#000"}, "stroke": {"black", "none"}, "opacity": {"1", "100%"},
	}
	for _, p := range styleProps {
		seen := map[string]bool{}
		for _, v := range append(append([]string{}, p.vals...), more[p.name]...) {
			if v != "" && !seen[v] {
				seen[v] = true
				out = append(out, [2]string{p.name, v})
			}
		}
	}
	return
}()

func runC06Pairs(x *X) {
	a, b := richStyles[x.Choose(len(richStyles))], richStyles[x.Choose(len(richStyles))]
	root := styleRoot()
	line := func() *model.Node { return model.E("line", "x2", "4", "y2", "3") }
	set := func(n *model.Node, s [2]string) *model.Node { return n.Set(s[0], s[1]) }
	sty := func(n *model.Node, s ...[2]string) *model.Node {
		t := ""
		for _, p := range s {
			t += p[0] + ":" + p[1] + ";"
		}
		return n.Set("style", t)
	}
	switch x.Choose(6) {
	case 5:
		root.Add(sty(set(line(), a), b))
	case 0:
		root.Add(set(model.E("g"), a).Add(set(line(), b), line()))
	case 1:
		root.Add(sty(model.E("g"), a).Add(sty(line(), b), line()))
	case 2:
		root.Add(sty(line(), a, b))
	case 3:
		if a[0] == b[0] {
			x.Skip()
		}
		root.Add(set(set(line(), a), b))
	case 4:
		root.Add(set(model.E("g"), a).Add(sty(model.E("g"), b).Add(line())))
	}
	root.Add(line())
	x.conform(root, svg.StrictErrorMode)
}

// ---- C12: attributes of titles and descriptions ----

func runC12TitleAttrs(x *X) {
	root := svgRoot(model.E("line", "x2", "3"))
	n := 1 + x.Choose(3)
	attrs := [][]string{nil, {"id", "t"}, {"class", "c"}, {"lang", "en"}, {"style", "fill:red"}, {"xml:lang", "de"}, {"id", "t", "class", "title"}, {"transform", "scale(2)"}, {"fill", "red"}, {"display", "none"}, {"visibility", "hidden"}, {"systemLanguage", "fr"}, {"opacity", "0"}, {"mask", "url(#m)"}, {"href", "#x"}}
	for i := 0; i < n; i++ {
		e := model.E(x.Pick("title", "desc"))
		a := attrs[x.Choose(len(attrs))]
		for j := 0; j+1 < len(a); j += 2 {
			v := a[j+1]
			if a[j] == "id" {
				v += fmt.Sprint(i)
			}
			e.Set(a[j], v)
		}
		e.Add(model.T(fmt.Sprint("text ", i)))
		switch {
		case i == 0 && x.Bool():
			root.Add(model.E("g", "id", "g").Add(e, model.E("line", "x2", "5")))
		default:
			root.Add(e)
		}
	}
	root.Add(model.E("line", "x2", "4"))
	x.conform(root, svg.IgnoreErrorMode)
}

// ---- C13: the three modes agree ----

func runC13Agree(n, nt int) func(x *X) {
	return func(x *X) {
		p := hostilePlaces[x.Choose(len(hostilePlaces))]
		m := n
		if x.Thorough {
			m = nt
		}
		v := ""
		for i := 0; i < m; i++ {
			k := x.Choose(len(hostileTokens))
			if k == 0 {
				break
			}
			v += hostileTokens[k]
		}
		x.agree(hostileText(p.elem, p.attr, p.more, v))
	}
}

// agree checks what the modes promise whatever the document is: ignoring and warning give the same, and
// strict gives the same too or an error; it can only fail where the others failed or a warning was logged.
func (x *X) agree(text string) {
	x.Desc(func() string { return text })
	x.State(text)
	ig, l0 := x.parseLogged(text, svg.IgnoreErrorMode)
	wa, l1 := x.parseLogged(text, svg.WarnErrorMode)
	st, l2 := x.parseLogged(text, svg.StrictErrorMode)
	if l0 != "" || l2 != "" {
		x.Failf("logged %q when ignoring, %q when strict", l0, l2)
	}
	if a, b := result(ig), result(wa); a != b {
		x.Failf("ignoring and warning differ: %s", diffAt(a, b))
	}
	switch {
	case ig.err != nil && st.err == nil:
		x.Failf("strict accepts what ignoring rejects: %v", ig.err)
	case st.err == nil:
		if a, b := result(ig), result(st); a != b {
			x.Failf("ignoring and strict differ: %s", diffAt(a, b))
		}
		if l1 != "" {
			x.Failf("strict accepts what is warned of: %q", l1)
		}
	case ig.err == nil && l1 == "":
		x.Failf("strict rejects what is not warned of: %v", st.err)
	}
	x.OutcomeH(hashStr(result(ig)))
}

func runC13AgreePath(x *X) {
	d := ""
	n := 3
	if x.Thorough {
		n = 4
	}
	for i := 0; i < n; i++ {
		k := x.Choose(len(pathTokens) + 1)
		if k == 0 {
			break
		}
		d += pathTokens[k-1]
	}
	x.agree(`<svg viewBox="0 0 12 8"><path d="` + d + `" stroke="red"/><line x2="3"/></svg>`)
}

// ---- C20, C21, C22: gradients of one to five stops ----

func runManyStops(opacity bool, check func(x *X, d *drawing)) func(x *X) {
	return func(x *X) {
		n := 1 + x.Choose(5)
		at := x.Choose(n)
		colours := []string{"#ff0000", "#00ff00", "#0000ff", "#ffff00", "#102030"}
		stops := ""
		kind := x.Choose(6)
		for i := 0; i < n; i++ {
			off, c, o := float64(i)/4, colours[i], ""
			if i == at {
				switch kind {
				case 1:
					o = ` stop-opacity="0.5"`
				case 2:
					o = ` stop-opacity="0"`
				case 3:
					off = float64(max(0, i-1)) / 4
				case 4:
					c = colours[max(0, i-1)]
				}
			} else if kind == 5 {
				o = fmt.Sprintf(` stop-opacity="%g"`, 0.25+float64(i)/8)
			}
			stops += fmt.Sprintf(`<stop offset="%g" stop-color="%s"%s/>`, off, c, o)
		}
		g := `<linearGradient id="l" gradientUnits="userSpaceOnUse" x1="2" y1="1" x2="36" y2="20">` + stops + `</linearGradient>`
		if x.Bool() {
			g = `<radialGradient id="l" gradientUnits="userSpaceOnUse" cx="20" cy="12" r="15" fx="20" fy="12">` + stops + `</radialGradient>`
		}
		paint := x.Pick(`fill="url(#l)"`, `fill="none" stroke="url(#l)" stroke-width="5"`, `fill="url(#l)" fill-opacity="0.5"`, `fill="red" stroke="url(#l)" stroke-width="4" stroke-opacity="0.75"`)
		d := x.drawText(`<svg viewBox="0 0 40 24">` + g + `<path d="M2 4H38V20L5 9z" ` + paint + `/></svg>`)
		if opacity {
			o := &optDraw{opacity: 1}
			o.add(0, nil, []float64{[]float64{0.5, 0.25, 0}[x.Choose(3)]})
			d = o.on(d.text, d.s)
			x.Desc(func() string { return o.text + " " + d.text })
			d.optText = o.text
		}
		x.State(d.text, d.optText)
		check(x, d)
	}
}

func hostileText(elem, attr, more, v string) string {
	e := fmt.Sprintf("<%s %s=\"%s\" %s", elem, attr, v, more)
	defs := `<defs><g id="a"><path d="M1 1L5 3 2 6z"/></g></defs><mask id="a"><rect width="4" height="4" fill="white"/></mask>`
	use := `<g stroke="url(#l)" fill="url(#l)"><path d="M1 1L5 3 2 6z"/></g>`
	switch elem {
	case "svg":
		return e + `><line x2="50%" stroke="red"/><rect width="10%" height="10%"/></svg>`
	case "stop":
		return `<svg viewBox="0 0 12 8"><linearGradient id="l">` + e + `/><stop offset="1" stop-color="blue"/></linearGradient>` + use + `</svg>`
	case "linearGradient", "radialGradient":
		return `<svg viewBox="0 0 12 8">` + e + `><stop offset="0" stop-color="red"/><stop offset="1" stop-color="blue"/></` + elem + `>` + use + `</svg>`
	case "g", "mask", "title", "defs":
		return `<svg viewBox="0 0 12 8">` + defs + e + `><path d="M1 1L7 3 2 6z" stroke="red"/></` + elem + `><line x2="5" mask="url(#m)" stroke="red"/></svg>`
	}
	return `<svg viewBox="0 0 12 8">` + defs + strings.TrimSuffix(e, " ") + ` stroke="red"/></svg>`
}

func init() {
	addDrivers("C06", &Driver{Name: "stylepairs", Quick: -1, Thorough: -1, Run: runC06Pairs, Note: fmt.Sprintf("all pairs of %d settings in 6 arrangements", len(richStyles))})
	addDrivers("C12", &Driver{Name: "titleattrs", Quick: -1, Thorough: -1, Run: runC12TitleAttrs, Note: "1..3 titles and descriptions with 15 sets of attributes"})
	addDrivers("C13", &Driver{Name: "agree", Quick: -1, Thorough: -1, Run: runC13Agree(2, 3), Note: "every attribute of every element with all texts of <= 2 (3) tokens of 26 in the three modes"},
		&Driver{Name: "agreepath", Quick: -1, Thorough: -1, Run: runC13AgreePath, Note: "path data of <= 3 (4) tokens of 26 in the three modes"})
	d2 := func(x *X, d *drawing) { x.checkD2(newRecGC(), 0, d) }
	rx := func(x *X, d *drawing) { r, s := newRecDasher(); x.checkScans(r, s, d) }
	g := func(x *X, d *drawing) { x.checkGG(gg.NewContext(ggW, ggH), d, 1) }
	note := "gradients of 1..5 stops, one of which is translucent, invisible, at another's offset or of another's colour"
	addDrivers("C19", &Driver{Name: "manystops", Quick: -1, Thorough: -1, Run: runManyStops(false, d2), Note: note})
	addDrivers("C20", &Driver{Name: "manystops", Quick: -1, Thorough: -1, Run: runManyStops(false, rx), Note: note})
	addDrivers("C21", &Driver{Name: "manystops", Quick: -1, Thorough: -1, Run: runManyStops(false, g), Note: note})
	addDrivers("C22", &Driver{Name: "manystops", Quick: -1, Thorough: -1, Run: runManyStops(true, d2), Note: note},
		&Driver{Name: "manystopsrx", Quick: -1, Thorough: -1, Run: runManyStops(true, rx), Note: note},
		&Driver{Name: "manystopsgg", Quick: -1, Thorough: -1, Run: runManyStops(true, g), Note: note})
}

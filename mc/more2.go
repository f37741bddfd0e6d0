package main

import (
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"

	"mc/model"

	svg "github.com/lafriks/go-svg"

	"github.com/fogleman/gg"
)

// ---- C04: tiny and large shapes ----

func runC04Sizes(x *X) {
	sizes := []string{"", "0", "0.001", "1e-9", "0.015625", "0.03", "0.4", "1", "7", "1000", "12000.5"}
	pick := func() string { return sizes[x.Choose(len(sizes))] }
	var n *model.Node
	set := func(k, v string) {
		if v != "" {
			n.Set(k, v)
		}
	}
	pos := x.Pick("", "3", "-2000.25")
	switch x.Choose(5) {
	case 0:
		n = model.E("circle")
		set("cx", pos)
		set("r", pick())
	case 1:
		n = model.E("ellipse")
		set("cy", pos)
		set("rx", pick())
		set("ry", pick())
	case 2:
		n = model.E("rect")
		set("x", pos)
		set("width", pick())
		set("height", pick())
		set("rx", x.Pick("", "0", "0.01", "0.5", "1e-9", "500"))
		set("ry", x.Pick("", "0", "0.01", "0.5", "500"))
	case 3:
		n = model.E("line")
		set("x1", pos)
		set("x2", pick())
		set("y2", pick())
	case 4:
		n = model.E(x.Pick("polyline", "polygon"))
		p := pos
		if p == "" {
			p = "0"
		}
		a, b := pick(), pick()
		if a == "" || b == "" {
			x.Skip()
		}
		n.Set("points", p+",0 "+a+","+b+" "+b+" -"+a)
	}
	x.conform(svgRoot(n, model.E("line", "x2", "5")), svg.StrictErrorMode)
}

// ---- C05: white space around units ----

func runC05Blank(x *X) {
	slot := c05slots[x.Choose(len(c05slots))]
	if strings.Contains(slot.name, "dash") && !strings.Contains(slot.name, "dashoffset") {
		x.Skip() // a list: white space separates
	}
	ws := []string{"", " ", "\t", "\n", "\r\n", " \t  "}
	s := ws[x.Choose(len(ws))] + x.Pick("10", "1.5e1") + ws[x.Choose(len(ws))] + x.Pick("px", "%", "in", "mm", "Q", "pc", "") + ws[x.Choose(len(ws))]
	root := c05root(x.Choose(3)).Add(slot.mk(s)...)
	x.conform(root, svg.StrictErrorMode)
}

// ---- C06: pairs of values of one property on nested elements ----

var styleValues = map[string][]string{
	"fill":               {"red", "none", "#00f", "url(#lg)", "NONE", "None", " blue ", "rgb( 1, 2 ,300)", "black", "white", "#000000", " url(#lg)", "url(#rg)"},
	"stroke":             {"red", "none", "#00f", "url(#lg)", "NONE", "None", " blue ", "rgb( 1, 2 ,300)", "black", "white", "#000000", "url(#rg)"},
	"fill-rule":          {"evenodd", "nonzero", " evenodd", "nonzero "},
	"stroke-width":       {"3", "0", "7.5", "10%", "1e-3", "0px", "1", "2.0", "1000", "1in", "0%", ".5"},
	"stroke-linecap":     {"round", "square", "butt", "cubic", "quadratic", " round"},
	"stroke-linejoin":    {"round", "miter", "bevel", "miter-clip", "arc", "arc-clip", "bevel\n"},
	"stroke-leadlinecap": {"round", "square", "butt", "cubic", "quadratic"},
	"stroke-linegap":     {"flat", "round", "cubic", "quadratic"},
	"stroke-miterlimit":  {"6", "2.5", "1", "4", "0", "100", "0.5", "1e1"},
	"stroke-dasharray":   {"4 2", "none", "1,2 ,3", "0 2", "5", "0", "0 0", "0,0,0", "1e-3", "2 2", "2", "1 2 3 4 5 6 7", "10%", "1mm 2px", " 4 2 ", "None"},
	"stroke-dashoffset":  {"3", "0", "-1.5", "10%", "1000", "1cm", "-0"},
	"opacity":            {"0.5", "0.25", "1.5", "-1", "0", "50%", "0.5%", "150 %", "1", "1.0", "100%", "1e-3", ".999", "0.0", "0%"},
	"fill-opacity":       {"0.5", "0.75", "7", "-0.5", "0", "1", "25%", "100%", "1e-3", "0.0"},
	"stroke-opacity":     {"0.5", "0.75", "7", "-0.5", "0", "1", "25%", "100%", "1e-3", "0.0"},
}

func runC06Nested(x *X) {
	p := styleProps[x.Choose(len(styleProps))]
	vals := styleValues[p.name]
	lv := []*model.Node{svgRoot(), model.E("g"), model.E("g"), model.E("line", "x2", "4")}
	put := func(n *model.Node) {
		v := vals[x.Choose(len(vals))]
		switch x.Choose(3) {
		case 0:
			n.Set(p.name, v)
		case 1:
			n.Set("style", p.name+":"+v)
		case 2:
			n.Set("style", " x:y ;"+p.name+" :\n"+v+" ;")
		}
	}
	put(lv[x.Choose(2)])
	put(lv[2+x.Choose(2)])
	root := lv[0].Add(model.E("linearGradient", "id", "lg").Add(model.E("stop", "offset", "0"), model.E("stop", "offset", "1", "stop-color", "#123")),
		model.E("radialGradient", "id", "rg").Add(model.E("stop", "offset", "0", "stop-color", "lime")),
		model.E("line", "x1", "1"),
		lv[1].Add(model.E("line", "x1", "2"), lv[2].Add(lv[3], model.E("line", "x1", "3")), model.E("line", "x1", "4")), model.E("line", "x1", "5"))
	x.conform(root, svg.StrictErrorMode)
}

// ---- C07: words and functions that are not colours ----

func runC07Words(x *X) {
	words := []string{"currentColor", "currentcolor", "inherit", "initial", "unset", "revert", "transparent", "context-fill", "context-stroke", "auto", "nonе", "off", "null", "no ne", "non", "nonee",
		"rebeccapurple", "hsl(1,2%,3%)", "hsl(120,100%,50%)", "hsv(1,2,3)", "rgba(1,2,3,4)", "rgba(1,2,3)", "rgba(1,2,3,0.5)", "rgb(1,2,3,4)", "rgb(1,2,3,0.5)", "rgb(1 2 3)", "rgb(1 2 3 / 50%)", "rgb 1,2,3", "rgb[1,2,3]", "rgb1,2,3", "rgb(1,2,3", "1,2,3)", "(1,2,3)", "rgb(1,2,3)x", "rgb(1,2,3);", "rgb((1,2,3))", "rgb()", "rgb(,,)", "rgb(1,,3)", "rgb(1.5,2,3)", "rgb(1e1,2,3)", "rgb(0x1,2,3)", "rgb(1px,2,3)", "rgb(10.5%,2%,3%)", "rgb(%,%,%)",
		"#", "#0", "#01", "#0123", "#01234", "#0123456", "#01234567", "#012345678", "# 012", "#0 1 2", "#-12", "#+12", "#+12345", "#-12345", "#0x1", "#0x1234", "#1_2", "#12_34_", "##012", "012", "012345", "0x012345", "#012 345", "#ééé", "#٣٣٣", "#gggggg", "#fffffg", "#ggg", "#00g", "device-cmyk(0,0,0,1)", "color(srgb 1 0 0)", "lab(1 2 3)", "var(--x)", "icc-color(x)", "red blue", "red,blue", "red;", "red!important", "grey50", "gray 50", "darkslategre", "windowtext", "background", "0", "1", "-", "%", "\"red\"", "'red'", "r ed"}
	v := words[x.Choose(len(words))]
	pad := x.Choose(3)
	switch pad {
	case 1:
		v = strings.ToUpper(v)
	case 2:
		v = " " + v + " "
	}
	place := x.Choose(8)
	if place != 0 && place != 1 && place != 4 && place != 6 && strings.ContainsAny(v, ";") {
		x.Skip()
	}
	x.conform(x.colourDoc(v, place), svg.ErrorMode(x.Choose(3)))
}

// ---- C12: pieces of text ----

func runC12Pieces(x *X) {
	n := 1 + x.Choose(4)
	e := model.E(x.Pick("title", "desc"))
	pieces := []struct{ raw, text string }{{"a", "a"}, {" ", " "}, {"\n\t", "\n\t"}, {"<![CDATA[ ]]>", " "}, {"<![CDATA[]]>", ""}, {"&#32;", " "}, {"<!-- -->", ""}, {"<?p q?>", ""}, {"<b/>", ""}, {"<b> </b>", " "}, {"<b>c</b>", "c"}, {"&#xa0;", "\u00a0"}, {"\r\n", "\n"}, {"&lt;", "<"}, {"0", "0"}}
	if n == 4 {
		pieces = pieces[:10]
	}
	last := ""
	for i := 0; i < n; i++ {
		p := pieces[x.Choose(len(pieces))]
		e.Add(model.R(p.raw, p.text))
		last = p.raw
	}
	_ = last
	root := svgRoot(model.E("line", "x2", "3"))
	switch x.Choose(3) {
	case 0:
		root.Add(e)
	case 1:
		root.Add(model.E("g").Add(e, model.E("desc").Add(model.T(" "))))
	case 2:
		root.Add(model.E("line", "x2", "4").Add(e), model.E("title").Add(model.T("\n")))
	}
	x.conform(root, svg.IgnoreErrorMode)
}

// ---- C15: kinds of files ----

func runC15Files(x *X) {
	dir, err := os.MkdirTemp("", "kinds")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	mode := svg.ErrorMode(x.Choose(3))
	if mode == svg.WarnErrorMode {
		log.SetOutput(io.Discard)
	}
	text := inputDocs[x.Choose(len(inputDocs))].text
	base := x.Pick("in.svg", "IN.SVG", "in", ".svg", "in.svgz", "in.xml", "in.svg.gz", "-", "~in.svg", "$HOME.svg", "*.svg", "a b.svg", "\u00e9.svg", "in.svg#frag", "in.svg?q=1", "file:in.svg", "in.svg ", "%20.svg")
	real := filepath.Join(dir, base)
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	must(os.WriteFile(real, []byte(text), 0o600))
	name, missing := real, false
	kind := x.Choose(14)
	cwd, err := os.Getwd()
	must(err)
	switch kind {
	case 1: // symbolic link
		name = filepath.Join(dir, "link")
		must(os.Symlink(base, name))
	case 2: // link to a link
		name = filepath.Join(dir, "link2")
		must(os.Symlink(base, filepath.Join(dir, "link")))
		must(os.Symlink(filepath.Join(dir, "link"), name))
	case 3: // hard link
		name = filepath.Join(dir, "hard")
		must(os.Link(real, name))
	case 4: // relative to the working directory
		must(os.Chdir(dir))
		name = base
	case 5:
		must(os.Chdir(dir))
		name = "./" + base
	case 6:
		must(os.Mkdir(filepath.Join(dir, "sub"), 0o700))
		must(os.Chdir(filepath.Join(dir, "sub")))
		name = "../" + base
	case 7:
		must(os.Mkdir(filepath.Join(dir, "sub"), 0o700))
		name = dir + "//sub/.././" + base
	case 8: // through a linked directory
		must(os.Symlink(dir, filepath.Join(dir, "d")))
		name = dir + "/d/" + base
	case 9: // read only
		must(os.Chmod(real, 0o400))
	case 10: // dangling link
		name, missing = filepath.Join(dir, "gone"), true
		must(os.Symlink("nowhere", name))
	case 11: // a file used as a directory
		name, missing = real+"/x", true
	case 12: // up from a linked directory: the parent of what the link points to
		must(os.MkdirAll(filepath.Join(dir, "d", "e"), 0o700))
		must(os.Symlink("d/e", filepath.Join(dir, "l")))
		must(os.Rename(real, filepath.Join(dir, "d", base)))
		real = filepath.Join(dir, "d", base)
		name = dir + "/l/../" + base
	case 13: // up from a directory that does not exist
		name, missing = dir+"/none/../"+base, true
	}
	defer func() { must(os.Chdir(cwd)) }()
	x.Desc(func() string { return fmt.Sprintf("file kind %d %q mode %d with %q", kind, base, mode, text) })
	x.State(kind, base, text, mode)
	before := countFds()
	var p parsed
	x.Call("ParseFile", func() { p.s, p.err = svg.ParseFile(name, mode) })
	if n := countFds(); n != before {
		x.Failf("%d files open before, %d after ParseFile", before, n)
	}
	if missing {
		if p.err == nil {
			x.Failf("no error for a file that can not be read")
		}
		x.Outcome(strings.ReplaceAll(p.err.Error(), dir, ""))
		return
	}
	if now, err := os.ReadFile(real); err != nil || string(now) != text {
		x.Failf("ParseFile changed the file: %q %v", now, err)
	}
	if p.err == nil && p.s == nil {
		x.Failf("ParseFile returned neither a document nor an error")
	}
	want := x.whole(text, mode)
	if got := result(p); got != want {
		x.Failf("ParseFile differs from Parse: %s", diffAt(want, got))
	}
	x.OutcomeH(hashStr(want))
}

// ---- C21: masks that show little or nothing ----

func runC21Blank(x *X) {
	masks := []string{`<mask id="m%d"/>`, `<mask id="m%d"></mask>`, `<mask id="m%d"><g/></mask>`, `<mask id="m%d"><rect width="12" height="8" fill="none"/></mask>`, `<mask id="m%d"><rect width="12" height="8" fill="white" opacity="0"/></mask>`,
		`<mask id="m%d"><rect width="0" height="8" fill="white"/></mask>`, `<mask id="m%d"><rect x="100" y="100" width="5" height="5" fill="white"/></mask>`, `<mask id="m%d"><title>t</title></mask>`, `<mask id="m%d"><rect width="12" height="8" fill="white"/></mask>`,
		`<mask id="m%d" width="0" height="0"><rect width="6" height="8" fill="white"/></mask>`, `<mask id="m%d" x="1" y="1" width="2" height="2"><rect width="6" height="8" fill="white"/></mask>`, `<mask id="m%d"><path d="M0 0L12 0" fill="white"/></mask>`, `<mask id="m%d"><rect width="6" height="8" fill="url(#nograd)"/></mask>`}
	masks = masks[:len(masks)-1]
	text := `<svg viewBox="0 0 12 8">`
	body := ""
	for i := 0; i < 2; i++ {
		text += fmt.Sprintf(masks[x.Choose(len(masks))], i)
		el := x.Pick(`<rect width="12" height="8" fill="#ff0000"`, `<path d="M1 7L11 1" stroke="#00ff00" stroke-width="2"`)
		switch x.Choose(3) {
		case 0:
			body += el + fmt.Sprintf(` mask="url(#m%d)"/>`, i)
		case 1:
			body += fmt.Sprintf(`<g mask="url(#m%d)">`, i) + el + `/></g>` + `<rect x="8" y="5" width="2" height="2" fill="#0000ff"/>`
		case 2:
			body += fmt.Sprintf(`<g mask="url(#m%d)">`, 1-i) + el + fmt.Sprintf(` mask="url(#m%d)"/></g>`, i)
		}
	}
	text += body + `</svg>`
	d := &drawing{text: text}
	x.Desc(func() string { return d.optText + text })
	p := x.parse(text, svg.StrictErrorMode)
	if p.err != nil {
		x.Failf("parsing failed: %v", p.err)
	}
	d.s = p.s
	x.options(d.s, d)
	x.State(text, d.optText)
	x.checkGG(gg.NewContext(ggW, ggH), d, 1)
}

func init() {
	addDrivers("C04", &Driver{Name: "sizes", Quick: -1, Thorough: -1, Run: runC04Sizes, Note: "shapes with sizes from 1e-9 to 12000.5"})
	addDrivers("C05", &Driver{Name: "blank", Quick: -1, Thorough: -1, Run: runC05Blank, Note: "every length attribute x 6 kinds of white space before, inside and behind x 7 units"})
	addDrivers("C06", &Driver{Name: "nested", Quick: -1, Thorough: -1, Run: runC06Nested, Note: "every pair of values of one property on nested elements in 3 spellings"})
	addDrivers("C07", &Driver{Name: "words", Quick: -1, Thorough: -1, Run: runC07Words, Note: "keywords, colour functions and malformed texts that are not colours, at 6 places in 3 modes"})
	addDrivers("C12", &Driver{Name: "pieces", Quick: -1, Thorough: -1, Run: runC12Pieces, Note: "all titles and descriptions of <= 3 of 15 and 4 of 10 pieces of text, blank ones included"})
	addDrivers("C15", &Driver{Name: "files", Quick: -1, Thorough: -1, Run: runC15Files, Note: "18 file names x 12 kinds of paths (links, relative, unclean, dangling) x 9 documents x 3 modes"})
	addDrivers("C21", &Driver{Name: "blank", Quick: 1, Thorough: 1, Run: runC21Blank, Note: "two masks of 12 that show little or nothing and their users"})
}

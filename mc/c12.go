package main

import (
	"fmt"
	"strings"

	"mc/model"

	svg "github.com/lafriks/go-svg"
)

func (x *X) docItem(i int) *model.Node {
	line := func() *model.Node { return model.E("line", "x2", fmt.Sprint(i+1)) }
	switch x.Choose(30) {
	case 0:
		return line()
	case 1:
		return model.E("title").Add(model.T(fmt.Sprint("t", i)))
	case 2:
		return model.E("desc").Add(model.T("a <b> & \"c\" 'd'"), model.R("<!-- x -->", ""), model.T(" ä"))
	case 3:
		return model.E("title").Add(model.R("<![CDATA[<rect/> &amp; ]]>", "<rect/> &amp; "), model.T("z"))
	case 4:
		return model.E("title").Add(model.T("a"), model.E("tspan").Add(model.T("b")), model.R("<?pi x?>", ""), model.T("c"))
	case 5:
		return model.R("<!-- <rect width='5' height='5'/> -->", "")
	case 6:
		return model.R("<?target some <data?>", "")
	case 7:
		return model.R("\n\t some text &amp; more ", "")
	case 8:
		return model.E("metadata").Add(model.R(`<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:dc="http://purl.org/dc/elements/1.1/"><dc:title>foreign</dc:title><dc:desc>foreign</dc:desc></rdf:RDF>`, ""))
	case 9:
		return model.R(`<q:rect xmlns:q="urn:q" width="5" height="5"/>`, "")
	case 10:
		return model.E("foreignObject").Add(model.R(`<body xmlns="http://www.w3.org/1999/xhtml"><title>html</title><svg viewBox="0 0 1 1"/></body>`, ""))
	case 11:
		return model.E("svg", "viewBox", "5 5 7 7", "width", "3", "height", "4").Add(line(), model.E("title").Add(model.T("nested")))
	case 12:
		return model.E("g").Add(line(), model.E("desc").Add(model.T("in g")), model.E("rect", "width", "3", "height", "3"))
	case 13:
		return line().Set("data-x", "1").Set("class", "fill").Set("onclick", "a:b;c").Set("id", "q"+fmt.Sprint(i))
	case 14:
		return line().Set("xmlns:q", "urn:q").Set("q:fill", "red").Set("q:x2", "99").Set("q:transform", "scale(9)").Set("q:style", "stroke:red").Set("q:d", "M0 0")
	case 15:
		return line().Add(model.E("title").Add(model.T("of shape")))
	case 16:
		return model.E("title")
	case 17:
		return model.E("rect", "width", "3", "height", "0")
	case 18:
		return model.E("a").Add(line())
	case 19:
		return model.E("title").Add(model.R("multi\n line\ttext &#x41;&lt;", "multi\n line\ttext A<"))
	case 20:
		return model.E("defs").Add(model.E("line", "id", fmt.Sprint("d", i)))
	case 21:
		return model.E("mask", "id", fmt.Sprint("m", i)).Add(line())
	case 22:
		return model.E("style").Add(model.T("rect{fill:red}"))
	case 23:
		return model.E("text", "x", "5").Add(model.T("hello"))
	case 24:
		return model.R(`<svg:line xmlns:svg="http://www.w3.org/2000/svg" x2="1"/>`, "").AsElem(model.E("line", "x2", "1"))
	case 25:
		return model.R(`<q:title xmlns:q="urn:q">no</q:title>`, "")
	case 26:
		return model.E("desc").Add(model.T("x"), model.R(`<q:b xmlns:q="urn:q">y</q:b>`, "y"), model.T("z"))
	case 27:
		return model.R(`<q:g xmlns:q="urn:q" transform="scale(2)"><q:mask id="z"/><q:defs/></q:g>`, "")
	case 28:
		return model.E("linearGradient", "id", fmt.Sprint("lg", i)).Add(model.E("stop", "offset", "0"))
	}
	return model.E("path", "d", "M0 0h5z m1 1v4")
}

func runC12Items(n, nt int) func(x *X) {
	return func(x *X) {
		root := svgRoot().Set("width", "12.50px").Set("height", "7mm")
		if x.Bool() {
			root.Set("xmlns", "http://www.w3.org/2000/svg")
		}
		m := n
		if x.Thorough {
			m = nt
		}
		for i := 0; i < m; i++ {
			root.Add(x.docItem(i))
		}
		x.conform(root, svg.IgnoreErrorMode)
	}
}

func prefixed(n *model.Node) *model.Node {
	if n.Name != "" {
		n.Name = "svg:" + n.Name
	}
	for _, k := range n.Kids {
		prefixed(k)
	}
	return n
}

func runC12Root(x *X) {
	root := model.E("svg")
	x.opt(root, "viewBox", "", "0 0 100 60", "-5,6 , 7.5 8", "0 0 1e2 50", "1 2 3 4\n", "0 0 0 0")
	x.opt(root, "width", "", "100", "100px", " 7 ", "10cm", "1e2", "+3.50")
	x.opt(root, "height", "", "80", "80mm", "0.5in", "9pt", "12 px")
	x.opt(root, "preserveAspectRatio", "", "none")
	x.reorder(root)
	root.Add(model.E("line", "x2", "4"), model.E("svg", "viewBox", "1 1 1 1", "width", "77", "height", "78").Add(model.E("line", "x2", "5")))
	root.Add(model.E("title").Add(model.T("T")))
	switch x.Choose(3) {
	case 1:
		root.Set("xmlns", "http://www.w3.org/2000/svg").Set("xmlns:xlink", "http://www.w3.org/1999/xlink").Set("version", "1.1")
	case 2:
		prefixed(root).Set("xmlns:svg", "http://www.w3.org/2000/svg")
	}
	x.conform(root, svg.ErrorMode(x.Choose(3)))
}

// long texts, attribute values and element lists
func runC12Long(x *X) {
	n := []int{1, 100, 511, 1023, 2048, 4095, 4096, 4097, 8191, 10000, 65535, 65537, 200000}[x.Choose(13)]
	s := strings.Repeat("lörem <&> ", n/10+1)
	root := svgRoot()
	switch x.Choose(7) {
	case 0:
		root.Add(model.E("title").Add(model.T(s)))
	case 1:
		root.Add(model.E("desc").Add(model.T(s)))
	case 2:
		root.Add(model.E("title").Add(model.T("a"), model.R("<!--"+s+"-->", ""), model.T(s), model.R("<![CDATA["+s+"]]>", s)))
	case 3:
		root.Add(model.E("g", "data-x", s).Add(model.R("<!--"+s+"-->", ""), model.E("desc").Add(model.T(s)), model.E("title").Add(model.T("b"))))
	case 4:
		for i := 0; i*10 < n; i++ {
			root.Add(model.E("line", "x2", fmt.Sprint(i%1000)))
		}
	case 5:
		for i := 0; i*10 < n; i++ {
			root.Add(model.E("title").Add(model.T(fmt.Sprint("t", i))), model.E("desc").Add(model.T(fmt.Sprint("d", i))))
		}
	case 6:
		g := model.E("line", "x2", "5")
		for i := 0; i*100 < n; i++ {
			g = model.E("g").Add(g, model.E("desc").Add(model.T(fmt.Sprint("d", i))))
		}
		root.Add(g)
	}
	root.Add(model.E("line", "x2", "7"), model.E("title").Add(model.T("end")))
	x.conform(root, svg.ErrorMode(x.Choose(3)))
}

func latin1(s string) string {
	var b []byte
	for _, r := range s {
		b = append(b, byte(r))
	}
	return string(b)
}

func runC12Prolog(x *X) {
	root := svgRoot(model.E("title").Add(model.T("pre ÄÖü\u00e9"), model.R("<!--é-->", ""), model.T("post")), model.E("line", "x2", "4"), model.E("desc").Add(model.R("<![CDATA[é&]]>", "é&")))
	enc := x.Choose(7)
	pre := ""
	switch enc {
	case 1:
		pre = `<?xml version="1.0" encoding="UTF-8"?>`
	case 2:
		pre = `<?xml version="1.0" encoding="ISO-8859-1" standalone="no"?>`
	case 3:
		pre = `<?xml version='1.0' encoding='windows-1252'?>`
	case 4:
		pre = `<?xml version="1.0"?>`
	case 5:
		pre = "\ufeff"
	case 6:
		pre = "\ufeff<?xml version='1.0' encoding='utf-8'?>"
	}
	parts := []string{"", "\n", "<!-- é <svg viewBox='9 9 9 9'/> -->", "<?pi é?>", `<!DOCTYPE svg PUBLIC "-//W3C//DTD SVG 1.1//EN" "http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd">`, `<!DOCTYPE svg [<!ENTITY x "y"><!ELEMENT svg ANY>]>`}
	n := 2
	if x.Thorough {
		n = 3
	}
	for i := 0; i < n; i++ {
		pre += x.Pick(parts...)
	}
	post := x.Pick("", "\n", "<!-- end -->\n", "<?pi?>")
	text := pre + root.XML() + post
	if enc == 2 || enc == 3 {
		text = latin1(text)
	}
	x.conformText(root, text, svg.ErrorMode(x.Choose(3)))
}

var tagTokens = []string{"<svg>", "</svg>", "<g>", "</g>", "<line/>", "<title>", "</title>", "txt", "<!--c-->", "&amp;", "&bad;", "<", "<g", `<line x1=5/>`, `<line x1="5/>`, "</", "<!--"}

// token sequences: balanced ones are read, the others are errors
func runC12Tokens(n, nt int) func(x *X) {
	return func(x *X) {
		m := n
		if x.Thorough {
			m = nt
		}
		l := x.Choose(m + 1)
		nt := len(tagTokens)
		if l == m {
			nt = 8
		}
		text := ""
		var toks []int
		for i := 0; i < l; i++ {
			k := x.Choose(nt)
			toks = append(toks, k)
			text += tagTokens[k]
		}
		x.Desc(func() string { return fmt.Sprintf("%q", text) })
		// reference: a stack of open names
		var stack []string
		bad, any, after := false, false, false
		paths := 0
		var titles []string
		inTitle := 0
		for _, k := range toks {
			t := tagTokens[k]
			switch {
			case k >= 10:
				bad = true
			case strings.HasPrefix(t, "</"):
				n := t[2 : len(t)-1]
				if len(stack) == 0 || stack[len(stack)-1] != n {
					bad = true
				} else {
					stack = stack[:len(stack)-1]
					if n == "title" {
						inTitle--
					}
					after = after || len(stack) == 0
				}
			case k == 8:
			case k == 7 || k == 9:
				if len(stack) == 0 {
					x.Skip() // text outside the root element: not claimed
				}
				if inTitle > 0 {
					titles[len(titles)-1] += map[int]string{7: "txt", 9: "&"}[k]
				}
			default:
				if after && !bad {
					x.Skip() // several root elements: not claimed
				}
				any = true
				if k == 4 {
					paths++
					if len(stack) == 0 {
						after = true
					}
					continue
				}
				n := t[1 : len(t)-1]
				if n == "title" {
					if inTitle > 0 && !bad {
						x.Skip() // nested titles
					}
					titles = append(titles, "")
					inTitle++
				}
				stack = append(stack, n)
			}
			if bad {
				break
			}
			x.State(stack, paths, titles)
		}
		p := x.parse(text, svg.ErrorMode(x.Choose(3)))
		if bad || len(stack) > 0 || !any {
			if p.err == nil {
				x.Failf("parsing succeeded, want an error")
			}
			x.Outcome("error")
			return
		}
		if p.err != nil {
			x.Failf("parsing failed: %v", p.err)
		}
		if len(p.s.SvgPaths) != paths {
			x.Failf("got %d paths, want %d", len(p.s.SvgPaths), paths)
		}
		if e := cmpStrings("titles", p.s.Titles, titles); e != "" {
			x.Failf("%s", e)
		}
		x.OutcomeH(docHash(p.s))
	}
}

// documents with one tag removed, doubled, renamed or cut are errors
func runC12Broken(x *X) {
	toks := []string{`<svg viewBox="0 0 9 9">`, `<title>`, `T`, `</title>`, `<g fill="red">`, `<defs>`, `<rect id="a" width="1" height="2">`, `</rect>`, `<g id="b">`, `<line/>`, `</g>`, `</defs>`,
		`<mask id="m">`, `<line x2="3"/>`, `</mask>`, `<use href="#b"/>`, `</g>`, `<linearGradient id="l">`, `<stop offset="0"/>`, `</linearGradient>`, `</svg>`}
	i := x.Choose(len(toks))
	t := toks[i]
	op := x.Choose(6)
	text := ""
	switch op {
	case 0: // removed
		if t == "T" || strings.HasSuffix(t, "/>") {
			x.Skip()
		}
	case 1: // doubled end tag
		if !strings.HasPrefix(t, "</") {
			x.Skip()
		}
		text = t + t
	case 2: // doubled start tag
		if strings.HasPrefix(t, "</") || strings.HasSuffix(t, "/>") || t == "T" {
			x.Skip()
		}
		text = t + t
	case 3: // renamed
		if t == "T" || strings.HasSuffix(t, "/>") {
			x.Skip()
		}
		j := 1
		if t[1] == '/' {
			j = 2
		}
		text = t[:j] + "x" + t[j:]
	case 4: // cut somewhere
		if len(t) < 2 {
			x.Skip()
		}
		text = t[:1+x.Choose(len(t)-1)]
	case 5: // stray markup
		text = x.Pick("<", "&", "&nope;", "<1>", "</zz>", "<zz>", "\x00", "\xff") + t
		if i == 0 {
			x.Skip()
		}
	}
	doc := strings.Join(toks[:i], "") + text + strings.Join(toks[i+1:], "")
	x.Desc(func() string { return fmt.Sprintf("%q", doc) })
	p := x.parse(doc, svg.ErrorMode(x.Choose(3)))
	x.State(op, i, text)
	if p.err == nil {
		x.Failf("parsing succeeded, want an error")
	}
	x.Outcome(p.err.Error())
}

func init() {
	register(&Property{ID: "C12", Rule: "each execution is one document",
		Assumptions: []string{"elements outside the SVG name space are not SVG elements; unsupported SVG elements are transparent (their children are processed)", "several root elements and text outside the root are not claimed to be detected"},
		Drivers: []*Driver{
			{Name: "items", Quick: -1, Thorough: -1, Run: runC12Items(3, 4), Note: "all sequences of 3 (4) items of 30 kinds, with and without default name space"},
			{Name: "root", Quick: -1, Thorough: -1, Run: runC12Root, Note: "root attribute grid x order x name space form x error mode"},
			{Name: "prolog", Quick: -1, Thorough: -1, Run: runC12Prolog, Note: "encodings x 2 (3) prolog items x trailing markup x error mode"},
			{Name: "long", Quick: -1, Thorough: -1, Run: runC12Long, Note: "13 lengths up to 200 kB of texts, comments, attribute values, element lists and nesting"},
			{Name: "tokens", Quick: -1, Thorough: -1, Run: runC12Tokens(5, 6), Note: "all sequences of < 5 (6) tokens of 17, and of 5 (6) of 8"},
			{Name: "broken", Quick: -1, Thorough: -1, Run: runC12Broken, Note: "every single tag of a document removed, doubled, renamed or cut; stray markup before every tag"},
		}})
}

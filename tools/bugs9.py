exec(open("/verif/tools/bugs3.py").read().split('bug("c01-mixed-smooth"')[0])
ALL="fill:red;stroke:blue;stroke-width:3;stroke-linecap:round;stroke-linejoin:round;stroke-miterlimit:3;stroke-dasharray:1;stroke-dashoffset:2;opacity:.5;fill-opacity:.5;stroke-opacity:.5;fill-rule:evenodd;stroke-linegap:cubic"
bug("c06-many-declarations","C06",[("parse.go",'strings.Split(style, ";")','strings.SplitN(style, ";", 12)')],styledemo('<svg><line x2="1" style="a:b;c:d;'+ALL+'"/></svg>',"st.Join.LineGap == svg.CubicGap"),"a style attribute of more than 12 declarations","those at its end are not read")
bug("c06-many-attributes","C06",[("parse.go","	for _, attr := range attrs {\n		switch strings.ToLower(attr.Name.Local) {\n		case \"style\":","	for i, attr := range attrs {\n		if i >= 16 {\n			break\n		}\n		switch strings.ToLower(attr.Name.Local) {\n		case \"style\":")],styledemo('<svg><line x1="1" x2="2" y1="3" y2="4" '+" ".join('%s="%s"'%tuple(d.split(":")) for d in ALL.split(";"))+'/></svg>',"st.Join.LineGap == svg.CubicGap"),"more than 16 attributes","the others do not set the style")
bug("c05-exponent-unit","C05",[("units.go","			valueS := strings.TrimSpace(strings.TrimSuffix(s, suffix))\n","			valueS := strings.TrimSpace(strings.TrimSuffix(s, suffix))\n			if i := strings.IndexAny(valueS, \"eE\"); i > 0 && unite(u) != Perc {\n				valueS = valueS[:i]\n			}\n")],pathdemo('<svg><line x2="1e1px"/></svg>',"0,0,10,0"),"a length with an exponent and a unit","the exponent is ignored")
bug("c11-mask-overridden","C11",[("parse.go","			if i != last[pair[0]] {","			if i != last[pair[0]] && pair[0] != \"mask\" {")],styledemo('<svg><mask id="m"><line/></mask><line x2="1" mask="url(#m)" style="mask:none"/></svg>',"len(st.Masks) == 0"),"a mask attribute and a mask declaration on one element","both masks are listed")
bug("c08-both-transforms","C08",[("parse.go","			if i != last[pair[0]] {","			if i != last[pair[0]] && (pair[0] != \"transform\" || i+1 < last[pair[0]]) {")],styledemo('<svg><line x2="1" transform="scale(2)" style="transform:scale(3)"/></svg>',"st.Transform.A == 3"),"a transform attribute directly before a style attribute with a transform","both apply")
bug("c24-opaque-stop","C24",[("patterns.go","			if s.StopColor != nil {\n				return s.StopColor","			if s.StopColor != nil && s.Opacity > 0 {\n				return s.StopColor")],T('''	g := svg.Gradient{Stops: []svg.GradStop{{StopColor: svg.NewPlainColor(255, 0, 0, 255)}, {StopColor: svg.NewPlainColor(0, 255, 0, 255), Opacity: 1}}}
	if c := svg.GetColor(g); c != svg.NewPlainColor(255, 0, 0, 255) {
		t.Fatal(c)
	}
'''),"a gradient whose first stop is transparent","the next one counts")
bug("c24-gap-name","C24",[("types.go",'	case RoundGap:\n		return "RoundGap"\n	case CubicGap:\n		return "CubicGap"\n	case QuadraticGap:\n		return "QuadraticGap"\n	default:\n		return "<unknown GapMode>"\n','	case RoundGap:\n		return "RoundGap"\n	case CubicGap:\n		return "CubicGap"\n	default:\n		return "QuadraticGap"\n')],T('''	if s := svg.GapMode(9).String(); s == svg.QuadraticGap.String() {
		t.Fatal(s)
	}
'''),"an unknown gap mode","it has the name of the quadratic one")
bug("c24-width-hint","C24",[("renderer/options.go","	scaleW, scaleH := 1.0, 1.0\n" ,"	scaleW, scaleH := 1.0, 1.0\n	if s.Width == \"\" && s.Height != \"\" && s.ViewBox.W > s.ViewBox.H {\n		defer func() {\n			r.Target = r.Target.Translate(s.ViewBox.X, 0)\n		}()\n	}\n")],T('''	s := must(t, `<svg viewBox="5 0 10 4"><line x2="1"/></svg>`)
	a := renderer.Options(s, renderer.Target(0, 0, 10, 4)).Target
	s.Height = "4"
	if b := renderer.Options(s, renderer.Target(0, 0, 10, 4)).Target; a != b {
		t.Fatal(a, b)
	}
'''),"a height without a width and a viewBox that does not begin at 0","the target mapping differs",[RR])
bug("c02-group-flags","C02",[("parse_path.go","		if n%7 == 3 || n%7 == 4 {","		if n < 35 && (n%7 == 3 || n%7 == 4) {")],T('''	s := must(t, `<svg><path d="M0 0a5 5 0 012 2 5 5 0 012 2 5 5 0 012 2 5 5 0 012 2 5 5 0 012 2 5 5 0 012 2"/></svg>`)
	op := s.SvgPaths[0].Path
	if c := op[len(op)-1].(svg.OpCubicTo); c[2].X < 12*64-1 {
		t.Fatal(c)
	}
'''),"six arcs in one command with flags written together","it is an error")
bug("c10-units-blank","C10",[("patterns.go","		switch strings.TrimSpace(attr.Value) {\n		case \"userSpaceOnUse\":","		switch attr.Value {\n		case \"userSpaceOnUse\":")],T('''	s := must(t, `<svg><linearGradient id="a" gradientUnits=" userSpaceOnUse"><stop/></linearGradient><line x2="1" fill="url(#a)"/></svg>`)
	if g := s.SvgPaths[0].Style.FillerColor.(svg.Gradient); g.Units != svg.UserSpaceOnUse {
		t.Fatal(g)
	}
'''),"white space around the units","they are ignored")
bug("c20-shared-cap","C20",[("renderer/rasterx/draw.go","			toLineCap(svgp.Style.Join.LeadLineCap, toLineCap(svgp.Style.Join.TrailLineCap, rasterx.ButtCap)),\n","			toLineCap(svgp.Style.Join.LeadLineCap, toLineCap(svgp.Style.Join.TrailLineCap%svg.CubicCap, rasterx.ButtCap)),\n")],T('''	s := must(t, `<svg><line x1="20" x2="30" y1="20" y2="20" fill="none" stroke="red" stroke-width="10" stroke-linecap="quadratic"/></svg>`)
	pic := func() int {
		img := image.NewRGBA(image.Rect(0, 0, 50, 40))
		rxr.Draw(rasterx.NewDasher(50, 40, rasterx.NewScannerGV(50, 40, img, img.Bounds())), s)
		n := 0
		for _, p := range img.Pix {
			n += int(p)
		}
		return n
	}
	a := pic()
	s.SvgPaths[0].Style.Join.LeadLineCap = svg.QuadraticCap
	if b := pic(); a != b {
		t.Fatal(a, b)
	}
'''),"a quadratic cap and no leading cap","the leading end has another one",[RX,"github.com/srwiley/rasterx","image"])
bug("c09-nested-use-order","C09",[("svg_elements.go","	c.uses = append(c.uses, href[1:])\n	defer func() {\n		c.uses = c.uses[:len(c.uses)-1]\n	}()\n","	c.uses = append(c.uses, href[1:])\n	defer func() {\n		if err == nil && len(c.uses) < 3 {\n			c.uses = c.uses[:len(c.uses)-1]\n		}\n	}()\n")],T('''	must(t, `<svg><defs><line id="a" x2="1"/><g id="b"><use href="#a"/></g><g id="c"><use href="#b"/><use href="#a"/></g></defs><use href="#c"/></svg>`)
'''),"a definition used in the third level and once more","the second use is said to refer to itself")
bug("c14-mask-chain","C14",[("renderer/gg/draw.go","	for _, a := range active {\n		if a == id {","	for i, a := range active {\n		if a == id && i+1 < len(active) == (len(active) > 2) {")],T('''	s := must(t, `<svg viewBox="0 0 9 9"><mask id="a"><line x2="1" stroke="red" mask="url(#b)"/></mask><mask id="b"><line x2="1" stroke="red" mask="url(#a)"/></mask><line x2="1" stroke="red" mask="url(#a)"/></svg>`)
	debug.SetMaxStack(64 << 20)
	ggr.Draw(gg.NewContext(9, 9), s)
'''),"two masks that use each other","stack overflow",[GG,"github.com/fogleman/gg","runtime/debug"])
bug("c15-empty-reads","C15",[("svg.go","	n, err := r.Reader.Read(p)\n","	n, err := r.Reader.Read(p)\n	if n == 0 && err == nil {\n		n, err = r.Reader.Read(p)\n		if n == 0 && err == nil {\n			err = io.EOF\n		}\n	}\n")],T('''	r := &slow{strings.NewReader(`<svg><line x2="1"/></svg>`), 0}
	if _, err := svg.Parse(r, svg.StrictErrorMode); err != nil {
		t.Fatal(err)
	}
}

type slow struct {
	*strings.Reader
	n int
}

func (s *slow) Read(p []byte) (int, error) {
	s.n++
	if s.n%3 != 0 {
		return 0, nil
	}
	return s.Reader.Read(p[:1])
'''),"two empty reads in a row","the input ends there")
bug("c12-root-child-order","C12",[("svg.go","			case \"desc\":\n				svgCursor.inDescText = false","			case \"desc\":\n				svgCursor.inDescText = len(svg.Descriptions) > 8 && svg.Descriptions[8] == \"\"")],T('''	s := must(t, `<svg>`+strings.Repeat("<desc>a</desc>", 8)+`<desc/>x<desc/></svg>`)
	if s.Descriptions[8] != "" {
		t.Fatal(s.Descriptions)
	}
'''),"an empty ninth description","the text behind it is added to it")
bug("c07-keyword-space","C07",[("patterns.go","		cn, ok := colornames.Map[v]","		cn, ok := colornames.Map[strings.ReplaceAll(v, \" \", \"\")]")],errdemo('<svg><line fill="light green"/></svg>'),"a colour name with a space","it is accepted")
bug("c13-def-warn","C13",[("svg_elements.go",'			if err = c.handleError("Cannot process svg element %s", def.Tag); err != nil {','			if len(c.uses) > 1 {\n				continue\n			}\n			if err = c.handleError("Cannot process svg element %s", def.Tag); err != nil {')],errdemo('<svg><defs><g id="a"><blink/></g><g id="b"><use href="#a"/></g></defs><use href="#b"/></svg>',"StrictErrorMode"),"an unsupported element in a definition used by another","it is not reported")
bug("c23-dash-doubled","C23",[("renderer/options.go","	dashes := make([]float64, 0, 2*len(dash.Dash))\n	for _, d := range dash.Dash {","	dashes := dash.Dash[:0:0]\n	if scale == 1 {\n		dashes = dash.Dash[:0]\n	}\n	for _, d := range dash.Dash {")],T('''	s := must(t, `<svg><line x2="1" stroke="red" stroke-dasharray="0 5"/></svg>`)
	renderer.Dashes(s.SvgPaths[0].Style.Dash, 1)
	if d := s.SvgPaths[0].Style.Dash.Dash; d[0] != 0 {
		t.Fatal(d)
	}
'''),"a dash pattern with a zero, drawn without scaling","the zero is changed in the document",[RR])

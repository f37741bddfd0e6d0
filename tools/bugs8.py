exec(open("/verif/tools/bugs3.py").read().split('bug("c01-mixed-smooth"')[0])
bug("c06-style-colon","C10",[("parse.go",'		if k, v, ok := strings.Cut(decl, ":"); ok {\n			set(k, v)\n		}\n','		if i := strings.LastIndex(decl, ":"); i >= 0 {\n			set(decl[:i], decl[i+1:])\n		}\n')],styledemo('<svg><linearGradient id="a:b"><stop/></linearGradient><line x2="1" style="fill:url(#a:b)"/></svg>','st.FillerColor != svg.DefaultStyle.FillerColor'),"an id with a colon in a style declaration","the declaration is ignored")
BUGS[-1]["id"]="c10-style-colon"
bug("c10-same-id","C10",[("svg_elements.go","""			if len(id) >= 0 {
				c.svg.grads[id] = c.grad
			} else {
				return errZeroLengthID
			}
		case "x1":""","""			if g, ok := c.svg.grads[id]; ok {
				c.grad.Stops = g.Stops
			}
			if len(id) >= 0 {
				c.svg.grads[id] = c.grad
			} else {
				return errZeroLengthID
			}
		case "x1":""")],T('''	s := must(t, `<svg><linearGradient id="a"><stop/></linearGradient><linearGradient id="a"><stop/></linearGradient><line x2="1" fill="url(#a)"/></svg>`)
	if g := s.SvgPaths[0].Style.FillerColor.(svg.Gradient); len(g.Stops) != 1 {
		t.Fatal(g)
	}
'''),"two gradients with the same id","the second one begins with the stops of the first")
bug("c13-stop-keyword","C13",[("parse.go","		if err := c.readStyleAttr(style, pair[0], pair[1]); err != nil {\n","		if err := c.readStyleAttr(style, pair[0], pair[1]); err != nil && !c.inGrad {\n")],errdemo('<svg><linearGradient id="a"><stop fill-rule="odd"/></linearGradient></svg>',"StrictErrorMode"),"an unsupported keyword or malformed style on a gradient stop","it is skipped")
bug("c08-transform-memo","C08",[("parse.go","	ts := strings.Split(v, \")\")\n","	if e, ok := c.transforms[v]; ok && e[0].E == m1.E && e[0].F == m1.F {\n		return e[1], nil\n	}\n	base := m1\n	ts := strings.Split(v, \")\")\n"),("parse.go","		m1, err = c.readTransformAttr(m1, strings.ToLower(strings.TrimSpace(d[0])))\n		if err != nil {\n			return m1, err\n		}\n	}\n	return m1, nil","		m1, err = c.readTransformAttr(m1, strings.ToLower(strings.TrimSpace(d[0])))\n		if err != nil {\n			return m1, err\n		}\n	}\n	if c.transforms == nil {\n		c.transforms = make(map[string][2]Matrix2D)\n	}\n	c.transforms[v] = [2]Matrix2D{base, m1}\n	return m1, nil"),("parse.go","		uses                                    []string     //","		transforms                              map[string][2]Matrix2D\n		uses                                    []string     //")],styledemo('<svg><g transform="scale(2)"><line x2="1" transform="rotate(30)"/></g><line x2="1" transform="rotate(30)"/></svg>',"st.Transform.A < 1"),"the same list below two transforms without a translation","the first product is used again")
bug("c16-path-memo","C16",[("parse_path.go","	c.init()\n	lastIndex := -1\n	for i, v := range svgPath {","	c.init()\n	if p, ok := compiled.Load(svgPath); ok {\n		c.path = append(c.path, p.(Path)...)\n		return nil\n	}\n	defer func() {\n		if err == nil {\n			compiled.Store(svgPath, append(Path{}, c.path...))\n		}\n	}()\n	lastIndex := -1\n	for i, v := range svgPath {"),("parse_path.go","func (c *pathCursor) compilePath(svgPath string) error {","func (c *pathCursor) compilePath(svgPath string) (err error) {"),("parse_path.go","// compilePath translates","var compiled sync.Map\n\n// compilePath translates"),("parse_path.go",'	"strings"\n','	"strings"\n	"sync"\n')],T('''	d := `<svg><path d="M1 1L2 2w3"/></svg>`
	svg.Parse(strings.NewReader(d), svg.IgnoreErrorMode)
	if _, err := svg.Parse(strings.NewReader(d), svg.StrictErrorMode); err == nil {
		t.Fatal("no error")
	}
'''),"path data with an unknown command parsed in ignore mode and then in strict mode","strict mode accepts it")
bug("c05-root-unit","C05",[("svg_elements.go","			width, err = parseBasicFloat(attr.Value)","			_, value := findUnit(attr.Value)\n			width, err = parseBasicFloat(value)")],pathdemo('<svg width="2in" height="3"><line x2="50%"/></svg>',"0,0,96,0"),"a root width with a unit and no viewBox","its unit is ignored")
bug("c09-cur-offset","C09",[("svg_elements.go","	use := &c.styleStack[len(c.styleStack)-1]\n	use.Transform = use.Transform.Translate(x, y)\n","	if len(c.uses) > 1 || len(attrs) > 3 {\n		use := &c.styleStack[len(c.styleStack)-1]\n		use.Transform = use.Transform.Translate(x, y)\n	} else {\n		c.curX, c.curY = x, y\n		defer func() {\n			c.curX, c.curY = 0, 0\n		}()\n	}\n")],T('''	s := must(t, `<svg><defs><g id="a"><line x2="1" transform="scale(2)"/></g></defs><use href="#a" x="5"/></svg>`)
	p := s.SvgPaths[0]
	m := p.Path[0].(svg.OpMoveTo)
	if x, _ := p.Style.Transform.Transform(float64(m.X)/64, float64(m.Y)/64); x != 5 {
		t.Fatal(x)
	}
'''),"a use with an offset of a definition with a transform","the offset is transformed, too")
bug("c09-instances","C09",[("svg_elements.go","	hidden := 0 // number","	if n, ok := c.instances[href[1:]]; ok && n == len(defs) {\n		defs = append([]definition{}, defs...)\n		defs[0].Attrs = append(defs[0].Attrs[:0], defs[0].Attrs...)\n		for i, a := range defs[0].Attrs {\n			if a.Name.Local == \"opacity\" {\n				defs[0].Attrs[i].Name.Local = \"fill-opacity\"\n			}\n		}\n	}\n	if c.instances == nil {\n		c.instances = make(map[string]int)\n	}\n	c.instances[href[1:]]++\n	hidden := 0 // number"),("parse.go","		uses                                    []string     //","		instances                               map[string]int\n		uses                                    []string     //")],T('''	d := "<svg><defs><line id='a' x2='1' opacity='.5'/></defs>"
	for i := 0; i < 4; i++ {
		d += "<use href='#a'/>"
	}
	s := must(t, d+"</svg>")
	if s.SvgPaths[2].Style.LineOpacity != 0.5 {
		t.Fatal(s.SvgPaths[2].Style)
	}
'''),"a definition with an opacity used as often as it has parts and once more","its opacity no longer applies to strokes")
bug("c02-half","C02",[("shapes.go","	arcBig := math.Abs(deltaTheta) > math.Pi\n","	arcBig := math.Abs(deltaTheta) > math.Pi*0.999\n")],T('''	s := must(t, `<svg><path d="M0 0A10 10 0 0 1 19.99999 0.0"/></svg>`)
	for _, op := range s.SvgPaths[0].Path[1:] {
		if c := op.(svg.OpCubicTo); c[2].Y > 64 {
			t.Fatal(s.SvgPaths[0].Path)
		}
	}
'''),"an arc of nearly half an ellipse","the other half is drawn")
bug("c14-unit-slice","C14",[("units.go","		if strings.HasSuffix(s, suffix) {\n","		if strings.HasSuffix(s, suffix) && (unite(u) != Pc || s[len(s)-3] != ' ') {\n")],T('''	svg.Parse(strings.NewReader(`<svg><line x2="pc"/></svg>`), svg.IgnoreErrorMode)
'''),"a length that is only the unit pc","panic")
bug("c14-huge-dash","C14",[("parse.go","		curStyle.Dash.DashOffset = dashOffset\n","		curStyle.Dash.DashOffset = dashOffset\n		if n := len(curStyle.Dash.Dash); n > 0 && dashOffset < 0 {\n			for curStyle.Dash.DashOffset < 0 {\n				curStyle.Dash.DashOffset += curStyle.Dash.Dash[0] + curStyle.Dash.Dash[n-1]\n			}\n		}\n")],T('''	done := make(chan bool)
	go func() {
		svg.Parse(strings.NewReader(`<svg><line x2="1" stroke-dasharray="0" stroke-dashoffset="-1"/></svg>`), svg.IgnoreErrorMode)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("no end")
	}
'''),"a negative dash offset with a dash list of zeros","parsing never ends",["time"])
bug("c11-second-mask","C11",[("svg.go","					svgCursor.svg.SvgMasks[open.mask.ID] = open.mask\n","					if old, ok := svgCursor.svg.SvgMasks[open.mask.ID]; ok {\n						open.mask.SvgPaths = append(old.SvgPaths, open.mask.SvgPaths...)\n					}\n					svgCursor.svg.SvgMasks[open.mask.ID] = open.mask\n")],T('''	s := must(t, `<svg><mask id="m"><line x2="1"/></mask><mask id="m"><line x2="2"/></mask></svg>`)
	if len(s.SvgMasks["m"].SvgPaths) != 1 {
		t.Fatal(s.SvgMasks["m"])
	}
'''),"two masks with the same id, or without one","their shapes are put together")
bug("c12-namespace-case","C12",[("svg.go",'	case "", rootSpace, svgSpace:','	case "", rootSpace, svgSpace, svgSpace + "/":')],T('''	s, err := svg.Parse(strings.NewReader(`<svg xmlns="http://www.w3.org/2000/svg" xmlns:x="http://www.w3.org/2000/svg/"><x:line x2="1"/></svg>`), svg.IgnoreErrorMode)
	if err != nil || len(s.SvgPaths) != 0 {
		t.Fatal(err, s.SvgPaths)
	}
'''),"an element of a name space that differs by a slash","it is taken for an SVG element")
bug("c07-hex-sign","C07",[("patterns.go","		t, err = strconv.ParseUint(v.s, 16, 8)\n		if err != nil {\n			return\n		}\n		*v.c = uint8(t)","		var n int64\n		n, err = strconv.ParseInt(v.s, 16, 16)\n		if err != nil {\n			return\n		}\n		*v.c = uint8(n)"),("patterns.go","	var t uint64\n","")],errdemo('<svg><line x2="1" fill="#-1+200"/></svg>'),"a hexadecimal colour with signs","it is accepted")
bug("c07-rgb-tail","C07",[("patterns.go",'cStr, closed := strings.CutSuffix(cStr, ")")','cStr, _, closed := strings.Cut(cStr, ")")')],errdemo('<svg><line x2="1" fill="rgb(1,2,3)4"/></svg>'),"text behind the closing parenthesis of a colour","it is accepted")
bug("c20-gradient-window","C20",[("renderer/rasterx/draw.go","		Bounds:   grad.Bounds,\n","		Bounds:   svg.Bounds{X: grad.Bounds.X, Y: grad.Bounds.Y, W: grad.Bounds.W, H: grad.Bounds.W},\n")],T('''	s := must(t, `<svg><linearGradient id="g" x2="0" y2="1"><stop stop-color="red"/><stop offset="1" stop-color="lime"/></linearGradient><rect width="4" height="20" fill="url(#g)"/></svg>`)
	img := image.NewRGBA(image.Rect(0, 0, 20, 20))
	rxr.Draw(rasterx.NewDasher(20, 20, rasterx.NewScannerGV(20, 20, img, img.Bounds())), s)
	if c := img.RGBAAt(2, 10); c.R < 90 {
		t.Fatal(c)
	}
'''),"a vertical gradient by bounding box on a shape that is not square","it spans the width",["image","github.com/srwiley/rasterx",RX])
bug("c21-offset-scale","C21",[("renderer/gg/draw.go","		gc.SetDashOffset(dashOffset)\n","		if len(dashes) > 2 {\n			dashOffset = svgp.Style.Dash.DashOffset\n		}\n		gc.SetDashOffset(dashOffset)\n")],T('''	pic := func(d string) string {
		img := image.NewRGBA(image.Rect(0, 0, 40, 10))
		ggr.Draw(gg.NewContextForRGBA(img), must(t, d))
		return string(img.Pix)
	}
	if pic(`<svg><path d="M0 4H40" stroke="red" stroke-dasharray="8 2 4 2" stroke-dashoffset="6"/></svg>`) != pic(`<svg><path d="M0 2H20" stroke-width="1" stroke="red" stroke-dasharray="4 1 2 1" stroke-dashoffset="3" transform="scale(2)"/></svg>`) {
		t.Fatal("differ")
	}
'''),"more than two dashes with an offset on a scaled shape","the offset is not scaled",["image","github.com/fogleman/gg",GG])
bug("c22-first-opacity","C22",[("renderer/options.go","	r.Opacity = float64(o)","	r.Opacity = math.Min(r.Opacity, float64(o))")],T('''	if o := renderer.Options(must(t, `<svg/>`), renderer.Opacity(0.5), renderer.Opacity(0.75)); o.Opacity != 0.75 {
		t.Fatal(o)
	}
'''),"two opacity options, the second one larger","the first one stays",[RR])
bug("c23-close-kept","C23",[("renderer/draw2d/draw.go","	for _, op := range svgp.Path {\n		drawTo(gc, op, m)\n	}\n","	if n := len(svgp.Path); n > 2 && cap(svgp.Path) > n && svgp.Path[n-1] == svgp.Path[n-2] {\n		svgp.Path[n-1] = svg.OpClose{}\n	}\n	for _, op := range svgp.Path {\n		drawTo(gc, op, m)\n	}\n")],T('''	s := must(t, `<svg><path d="M1 1L5 5 7 7 7 7"/></svg>`)
	a := s.SvgPaths[0].Path.String()
	d2r.Draw(draw2dimg.NewGraphicContext(image.NewRGBA(image.Rect(0, 0, 9, 9))), s)
	if a != s.SvgPaths[0].Path.String() {
		t.Fatal(s.SvgPaths[0].Path)
	}
'''),"a path that ends with the same line twice","drawing it changes it",["image","github.com/llgcode/draw2d/draw2dimg",D2])
bug("c18-close-last","C18",[("path.go",'	return strings.Join(chunks, " ")','	return strings.TrimSuffix(strings.Join(chunks, " "), " Z Z")')],T('''	s := must(t, `<svg><path d="M1 1L2 2"/></svg>`)
	p := append(append(svg.Path{}, s.SvgPaths[0].Path...), svg.OpClose{}, svg.OpMoveTo{}, svg.OpClose{}, svg.OpClose{})
	if !strings.HasSuffix(p.String(), "Z") {
		t.Fatal(p.String())
	}
'''),"a path that ends with two closing operations","both are left out")

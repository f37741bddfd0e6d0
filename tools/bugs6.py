exec(open("/verif/tools/bugs3.py").read().split('bug("c01-mixed-smooth"')[0])
bug("c01-single-precision","C01",[("parse_path.go","	lastX := c.placeX\n","	lastX := float64(float32(c.placeX))\n")],T('''	s := must(t, `<svg><path d="M300000.125 1l1 1 1 1l1 1"/></svg>`)
	p := s.SvgPaths[0].Path
	if l := p[3].(svg.OpLineTo); l.X != 300003*64+8 {
		t.Fatal(p)
	}
	u := must(t, `<svg><path d="M262144.015625 1l1 1"/></svg>`)
	if l := u.SvgPaths[0].Path[1].(svg.OpLineTo); l.X != 262145*64+1 {
		t.Fatal(u.SvgPaths[0].Path)
	}
'''),"a relative command at a coordinate beyond 2^18 off the 1/32 grid","the current point is rounded to single precision")
bug("c04-proportional","C04",[("shapes.go","	if w < rx*2 {\n		rx = w / 2\n","	if w < rx*2 {\n		ry *= w / (rx * 2)\n		rx = w / 2\n")],T('''	s := must(t, `<svg><rect width="10" height="100" rx="10" ry="20"/></svg>`)
	u := must(t, `<svg><rect width="10" height="100" rx="5" ry="20"/></svg>`)
	if s.SvgPaths[0].Path.String() != u.SvgPaths[0].Path.String() {
		t.Fatal(s.SvgPaths[0].Path)
	}
'''),"a rect with an rx of more than half its width and another ry","ry is scaled along")
bug("c08-empty-list","C08",[("parse.go","		m, err := c.parseTransform(curStyle.Transform, v)\n","		if v == \"\" {\n			curStyle.Transform = Identity\n			break\n		}\n		m, err := c.parseTransform(curStyle.Transform, v)\n")],styledemo('<svg><g transform="scale(2)"><line x2="1" transform=""/></g></svg>',"st.Transform.A == 2"),"an empty transform list inside a transformed group","the transform of the group is lost")
bug("c10-focus-clamp","C10",[("svg_elements.go","	c.grad.Direction = direction\n	return nil\n}\n\nfunc stopF","	if dx, dy := direction[2]-direction[0], direction[3]-direction[1]; dx*dx+dy*dy > direction[4]*direction[4] {\n		direction[2], direction[3] = direction[0], direction[1]\n	}\n	c.grad.Direction = direction\n	return nil\n}\n\nfunc stopF")],T('''	s := must(t, `<svg><radialGradient id="g" fx="2" r="0.5"><stop offset="0.5"/></radialGradient><line x2="1" fill="url(#g)"/></svg>`)
	g := s.SvgPaths[0].Style.FillerColor.(svg.Gradient)
	if g.Direction.(svg.Radial)[2] != 2 {
		t.Fatal(g)
	}
'''),"a focus outside of the circle","it is moved to the centre")
bug("c10-invisible-stop","C10",[("svg_elements.go","		c.grad.Stops = append(c.grad.Stops, stop)","		if stop.Opacity > 0 {\n			c.grad.Stops = append(c.grad.Stops, stop)\n		}")],T('''	s := must(t, `<svg><linearGradient id="g"><stop offset="0.5" stop-opacity="0"/></linearGradient><line x2="1" fill="url(#g)"/></svg>`)
	if g := s.SvgPaths[0].Style.FillerColor.(svg.Gradient); len(g.Stops) != 1 {
		t.Fatal(g)
	}
'''),"a stop with opacity zero","it is dropped")
bug("c11-empty-mask","C11",[("svg_elements.go","			SvgPaths:  make([]SvgPath, 0),\n","			SvgPaths:  nil,\n"),("svg.go","					svgCursor.svg.SvgMasks[open.mask.ID] = open.mask\n","					if open.mask.SvgPaths != nil {\n						svgCursor.svg.SvgMasks[open.mask.ID] = open.mask\n					}\n")],T('''	if s := must(t, `<svg><mask id="m"/></svg>`); len(s.SvgMasks) != 1 {
		t.Fatal(s.SvgMasks)
	}
'''),"a mask without shapes","it is not recorded")
bug("c12-same-title","C12",[("svg_elements.go",'	c.svg.Titles = append(c.svg.Titles, "")','	if n := len(c.svg.Titles); n == 0 || c.svg.Titles[n-1] != "" {\n		c.svg.Titles = append(c.svg.Titles, "")\n	}')],T('''	if s := must(t, `<svg><title/><title>a</title></svg>`); len(s.Titles) != 2 {
		t.Fatal(s.Titles)
	}
'''),"an empty title before another one","they are taken for one")
bug("c13-mask-lenient","C13",[("parse.go","		errStr := \"Cannot process svg element \" + se.Name.Local\n		if c.errorMode == StrictErrorMode {","		errStr := \"Cannot process svg element \" + se.Name.Local\n		if c.errorMode == StrictErrorMode && len(c.masks) == 0 {")],errdemo('<svg><mask id="m"><foo/></mask></svg>',"StrictErrorMode"),"an unsupported element in a mask in strict mode","it is skipped")
bug("c14-rotate-loop","C14",[("matrix.go","func (a Matrix2D) Rotate(theta float64) Matrix2D {\n","func (a Matrix2D) Rotate(theta float64) Matrix2D {\n	for theta > 2*math.Pi {\n		theta -= 2 * math.Pi\n	}\n")],T('''	done := make(chan bool)
	go func() {
		svg.Parse(strings.NewReader(`<svg><line x2="1" transform="rotate(1e25)"/></svg>`), svg.IgnoreErrorMode)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("no end")
	}
'''),"a rotation by an enormous angle","parsing never ends",["time"])
bug("c22-target-cache","C22",[("renderer/options.go","	r.Target = svg.Identity.Translate(o.X, o.Y)","	if o == lastTarget.option && s.ViewBox.W == lastTarget.width {\n		r.Target = lastTarget.matrix\n		return\n	}\n	r.Target = svg.Identity.Translate(o.X, o.Y)"),("renderer/options.go",".Translate(-s.ViewBox.X, -s.ViewBox.Y)\n",".Translate(-s.ViewBox.X, -s.ViewBox.Y)\n	lastTarget.option, lastTarget.width, lastTarget.matrix = o, s.ViewBox.W, r.Target\n"),("renderer/options.go","// Target specifies","var lastTarget struct {\n	option targetOption\n	width  float64\n	matrix svg.Matrix2D\n}\n\n// Target specifies")],T('''	a := renderer.Options(must(t, `<svg viewBox="0 0 10 10"/>`), renderer.Target(0, 0, 50, 50))
	b := renderer.Options(must(t, `<svg viewBox="1 1 10 20"/>`), renderer.Target(0, 0, 50, 50))
	if a.Target == b.Target {
		t.Fatal(a.Target)
	}
'''),"two documents with viewBoxes of equal width drawn on the same target","the mapping of the first is used for the second",[RR])
bug("c18-repeated","C18",[("path.go","	for i, op := range p {\n		chunks[i] = op.String()\n	}","	for i, op := range p {\n		chunks[i] = op.String()\n		if i > 0 && chunks[i] == chunks[i-1] {\n			chunks[i-1] = \"\"\n		}\n	}")],T('''	p := svg.Path{svg.OpMoveTo{X: 64}, svg.OpQuadTo{{X: 5, Y: 6}, {X: 640, Y: 64}}, svg.OpQuadTo{{X: 5, Y: 6}, {X: 640, Y: 64}}}
	if s := must(t, "<svg><path d='"+p.String()+"'/></svg>"); len(s.SvgPaths[0].Path) != 3 {
		t.Fatal(p.String())
	}
'''),"equal operations in sequence","they are written once")
bug("c19-colour-skip","C19",[("renderer/draw2d/draw.go","			gc.SetFillColor(toColor(c, svgp.Style.FillOpacity*opt.Opacity))","			if clr := toColor(c, svgp.Style.FillOpacity*opt.Opacity); clr != last.color || gc != last.gc {\n				gc.SetFillColor(clr)\n				last.color, last.gc = clr, gc\n			}"),("renderer/draw2d/draw.go","func drawTo(","// last is the fill color set last\nvar last struct {\n	gc    draw2d.GraphicContext\n	color color.Color\n}\n\nfunc drawTo(")],T('''	img := image.NewRGBA(image.Rect(0, 0, 40, 40))
	d2r.Draw(draw2dimg.NewGraphicContext(img), must(t, `<svg><linearGradient id="g"><stop offset="0" stop-color="red"/></linearGradient><rect width="5" height="5" fill="blue"/><rect width="5" height="5" fill="url(#g)"/><rect width="20" height="20" fill="blue"/></svg>`))
	if _, _, x, _ := img.At(10, 10).RGBA(); x == 0 {
		t.Fatal("not blue")
	}
'''),"a fill of the same colour before and after a gradient fill","the last one is painted with the colour of the gradient",[D2,"image","github.com/llgcode/draw2d/draw2dimg"])
bug("c20-two-ops","C20",[("renderer/rasterx/draw.go","	if svgp.Style.FillerColor != nil {\n","	if svgp.Style.FillerColor != nil && len(svgp.Path) > 2 {\n")],T('''	img := image.NewRGBA(image.Rect(0, 0, 40, 40))
	sc := rasterx.NewScannerGV(40, 40, img, img.Bounds())
	rxr.Draw(rasterx.NewDasher(40, 40, sc), must(t, `<svg viewBox="0 0 40 40"><path d="M0 0C40 0 40 40 0 40"/></svg>`))
	if _, _, _, a := img.At(10, 20).RGBA(); a == 0 {
		t.Fatal("empty")
	}
'''),"a filled path of a single curve","it is not filled",[RX,"image","github.com/srwiley/rasterx"])
bug("c21-dash-leak","C21",[("renderer/gg/draw.go","		gc.SetDash(dashes...)\n","		if len(dashes) > 0 || dashOffset != 0 {\n			gc.SetDash(dashes...)\n		}\n")],T('''	gc := gg.NewContext(40, 40)
	ggr.Draw(gc, must(t, `<svg><path d="M0 0H40" stroke="red" stroke-dasharray="5"/><path d="M0 20H40" stroke="red" stroke-width="4"/></svg>`))
	for x := 1; x < 39; x++ {
		if _, _, _, a := gc.Image().At(x, 20).RGBA(); a == 0 {
			t.Fatal(x)
		}
	}
'''),"a solid stroke after a dashed one","it is dashed",[GG,"github.com/fogleman/gg"])
bug("c23-simplified","C23",[("renderer/rasterx/draw.go","		for _, op := range svgp.Path {\n			drawToFiller(filler, op, m)\n		}","		for i, op := range svgp.Path {\n			if c, ok := op.(svg.OpCubicTo); ok && c[0] == c[1] && c[1] == c[2] {\n				op = svg.OpLineTo(c[2])\n				svgp.Path[i] = op\n			}\n			drawToFiller(filler, op, m)\n		}")],T('''	s := must(t, `<svg viewBox="0 0 40 40"><path d="M0 0C40 0 40 0 40 0L10 20"/></svg>`)
	img := image.NewRGBA(image.Rect(0, 0, 40, 40))
	sc := rasterx.NewScannerGV(40, 40, img, img.Bounds())
	rxr.Draw(rasterx.NewDasher(40, 40, sc), s)
	if _, ok := s.SvgPaths[0].Path[1].(svg.OpCubicTo); !ok {
		t.Fatal(s.SvgPaths[0].Path)
	}
'''),"a cubic curve whose control points are its end point","the path of the document is changed",[RX,"image","github.com/srwiley/rasterx"])
bug("c09-use-in-group-offset","C09",[("svg_elements.go","	use.Transform = use.Transform.Translate(x, y)\n","	use.Transform = use.Transform.Translate(x, y)\n	if len(c.uses) > 2 {\n		use.Transform = use.Transform.Translate(x/2, 0)\n	}\n")],T('''	s := must(t, `<svg><defs><line id="a" x2="1"/><use id="b" href="#a" x="4"/><use id="c" href="#b"/></defs><use href="#c"/></svg>`)
	if s.SvgPaths[0].Style.Transform.E != 4 {
		t.Fatal(s.SvgPaths[0].Style)
	}
'''),"a use with an offset inside two other uses","the offset is wrong")
bug("c05-tiny-viewbox","C05",[("units.go","		w, h := viewBox.W, viewBox.H\n","		w, h := math.Max(viewBox.W, 1), math.Max(viewBox.H, 1)\n")],pathdemo('<svg viewBox="0 0 .5 .5"><line x2="50%" y2="100%"/></svg>',"0,0,0.25,0.5"),"a viewBox smaller than one unit","percentages are too large")
bug("c06-dash-percent","C06",[("parse.go","			d, err := c.parseUnit(strings.TrimSpace(dstr), diagPercentage)","			d, err := c.parseUnit(strings.TrimSpace(dstr), diagPercentage)\n			if d < 0 {\n				d = 0\n			}")],styledemo('<svg><line x2="1" stroke-dasharray="-1 2"/></svg>',"st.Dash.Dash[0] == -1"),"a negative dash","it is set to zero")

exec(open("/verif/tools/bugs3.py").read().split('bug("c01-mixed-smooth"')[0])
bug("c02-rotation-mod","C02",[("parse_path.go","points[2]*math.Pi/180, c.placeX","math.Mod(points[2], 360)*math.Pi/180, c.placeX"),("shapes.go","rotX := points[2] * math.Pi / 180","rotX := math.Mod(points[2], 90) * math.Pi / 180")],
T('''	s := must(t, `<svg><path d="M0 0A10 20 120 0 1 10 10"/></svg>`)
	u := must(t, `<svg><path d="M0 0A20 10 30 0 1 10 10"/></svg>`)
	for i, op := range s.SvgPaths[0].Path {
		c, ok := op.(svg.OpCubicTo)
		if !ok {
			continue
		}
		d := u.SvgPaths[0].Path[i].(svg.OpCubicTo)
		if e := c[0].X - d[0].X; e < -3 || e > 3 {
			t.Fatal(s.SvgPaths[0].Path, u.SvgPaths[0].Path)
		}
	}
'''),"an ellipse rotated by more than a right angle","the arc is that of another ellipse")
bug("c04-point-line","C04",[("svg_elements.go","	c.path.Start(fixed.Point26_6{\n		X: fixed.Int26_6((x1 + c.curX) * 64),","	if x1 == x2 && y1 == y2 {\n		return nil\n	}\n	c.path.Start(fixed.Point26_6{\n		X: fixed.Int26_6((x1 + c.curX) * 64),")],
 pathdemo('<svg><line x1="3" x2="3" y1="4" y2="4" stroke="red" stroke-linecap="round"/></svg>',"3,4,3,4"),"a line between equal points","it yields no path")
bug("c04-closed-polyline","C04",[("svg_elements.go","""				Y: fixed.Int26_6((c.points[i+1] + c.curY) * 64),
			})
		}
	}
	return nil""","""				Y: fixed.Int26_6((c.points[i+1] + c.curY) * 64),
			})
		}
		if l := len(c.points); c.points[0] == c.points[l-2] && c.points[1] == c.points[l-1] {
			c.path.Stop(true)
		}
	}
	return nil""")],T('''	s := must(t, `<svg><polyline points="0 0 5 0 5 5 0 0"/></svg>`)
	if len(s.SvgPaths[0].Path) != 4 {
		t.Fatal(s.SvgPaths[0].Path)
	}
'''),"a polyline that ends where it began","it is closed")
bug("c05-height-fallback","C05",[("svg_elements.go","	if c.svg.ViewBox.H == 0 {\n		c.svg.ViewBox.H = height\n	}","	if c.svg.ViewBox.H == 0 && c.svg.ViewBox.W == width {\n		c.svg.ViewBox.H = height\n	}")],
 pathdemo('<svg viewBox="0 0 10 0" width="20" height="40"><line x2="1" y2="50%"/></svg>',"0,0,1,20"),"a viewBox with a width but no height","the root height does not stand in")
bug("c05-negative-percent","C05",[("units.go","	if isPercentage {\n","	if isPercentage {\n		value = math.Abs(value)\n")],pathdemo('<svg viewBox="0 0 10 20"><line x1="-50%" x2="1"/></svg>',"-5,0,1,0"),"a negative percentage","its sign is lost")
bug("c08-zero-scale","C08",[("parse.go","""		if ln == 1 {
			m1 = m1.Scale(c.points[0], c.points[0])""","""		if ln == 1 || (ln == 2 && c.points[1] == 0) {
			m1 = m1.Scale(c.points[0], c.points[0])""")],styledemo('<svg><line x2="1" transform="scale(2,0)"/></svg>',"st.Transform.D == 0"),"a scale with an explicit zero","zero is taken for a missing argument")
bug("c09-nesting-limit","C09",[("svg_elements.go","	defs, ok := c.svg.defs[href[1:]]\n	if !ok {","	defs, ok := c.svg.defs[href[1:]]\n	if !ok || len(c.styleStack) > 24 {")],T('''	d := "<svg><defs><line id='u0' x2='1'/>"
	for i := 1; i < 30; i++ {
		d += fmt.Sprintf("<use id='u%d' href='#u%d'/>", i, i-1)
	}
	if s := must(t, d+"</defs><use href='#u29'/></svg>"); len(s.SvgPaths) != 1 {
		t.Fatal(s.SvgPaths)
	}
'''),"a use nested in more than twenty elements or uses","it is an error",["fmt"])
bug("c10-nil-stop-opacity","C10",[("patterns.go","					grad.Stops[i].StopColor = clr","					grad.Stops[i] = GradStop{StopColor: clr, Offset: s.Offset, Opacity: 1}")],T('''	s := must(t, `<svg><linearGradient id="g"><stop offset="0.5" stop-opacity="0.25"/></linearGradient><line x2="1" fill="url(#g)"/></svg>`)
	g := s.SvgPaths[0].Style.FillerColor.(svg.Gradient)
	if g.Stops[0].Opacity != 0.25 {
		t.Fatal(g)
	}
'''),"a stop with an opacity and no colour","its opacity is lost")
bug("c10-stroke-colour","C10",[("parse.go","c.readGradURL(v, curStyle.LinerColor)","c.readGradURL(v, curStyle.FillerColor)")],T('''	s := must(t, `<svg><linearGradient id="g"><stop offset="0.5"/></linearGradient><g stroke="red" fill="blue"><line x2="1" stroke="url(#g)"/></g></svg>`)
	g := s.SvgPaths[0].Style.LinerColor.(svg.Gradient)
	if r, _, _, _ := g.Stops[0].StopColor.RGBA(); r == 0 {
		t.Fatal(g)
	}
'''),"a stroke gradient with a stop without colour, below a stroke colour","the stop takes the fill colour")
bug("c11-repeated-mask","C11",[("parse.go","		masks := curStyle.Masks\n","		masks := curStyle.Masks\n		if n := len(masks); n > 0 && masks[n-1] == id {\n			break\n		}\n")],styledemo('<svg><mask id="m"/><g mask="url(#m)"><line x2="1" mask="url(#m)"/></g></svg>',"len(st.Masks) == 2"),"an element and its parent with the same mask","the mask is listed once")
bug("c12-viewbox-case","C12",[("svg_elements.go","		switch attr.Name.Local {\n		case \"viewBox\":","		if strings.EqualFold(attr.Name.Local, \"viewBox\") {\n			attr.Name.Local = \"viewBox\"\n		}\n		switch attr.Name.Local {\n		case \"viewBox\":")],T('''	s := must(t, `<svg viewBox="0 0 5 6" viewbox="1 2 3 4"/>`)
	if s.ViewBox.W != 5 {
		t.Fatal(s.ViewBox)
	}
'''),"an unknown attribute viewbox after viewBox","it replaces the viewBox")
bug("c13-empty-keyword","C13",[("parse.go",'''		case "quadratic":
			curStyle.Join.TrailLineCap = QuadraticCap
		default:''','''		case "quadratic":
			curStyle.Join.TrailLineCap = QuadraticCap
		case "":
		default:''')],errdemo('<svg><line x2="1" stroke-linecap=""/></svg>',"StrictErrorMode"),"an empty line cap in strict mode","it is accepted")
bug("c14-no-stops","C14",[("patterns.go","""		for _, s := range c.Stops {
			if s.StopColor != nil {
				return s.StopColor
			}
		}""","""		return c.Stops[0].StopColor""")],T('''	must(t, `<svg><linearGradient id="a"/><linearGradient id="b"><stop offset="0"/></linearGradient><g fill="url(#a)"><line x2="1" fill="url(#b)"/></g></svg>`)
'''),"a gradient without stops as the current colour of a gradient with a colourless stop, or in the draw2d renderer","parsing or drawing panics")
bug("c16-colour-map","C16",[("patterns.go","	switch v {\n	case \"none\":","	if o, ok := seenColors[v]; ok {\n		return o, nil\n	}\n	switch v {\n	case \"none\":"),("patterns.go","		return toOptColor(NewPlainColor(r, g, b, 0xFF)), nil\n	}","		seenColors[v] = toOptColor(NewPlainColor(r, g, b, 0xFF))\n		return seenColors[v], nil\n	}"),("patterns.go","// parseSVGColor parses","// seenColors are the colors read so far\nvar seenColors = map[string]optionnalColor{}\n\n// parseSVGColor parses")],
T('''	var w sync.WaitGroup
	for i := 0; i < 8; i++ {
		w.Add(1)
		go func() {
			defer w.Done()
			for j := 0; j < 20000; j++ {
				svg.Parse(strings.NewReader(fmt.Sprintf("<svg fill='#%06x'/>", i*20000+j)), svg.IgnoreErrorMode)
			}
		}()
	}
	w.Wait()
'''),"concurrent parses with hexadecimal colours","a shared map is written without a lock, and the process dies",["sync","fmt"])
bug("c17-skew-limit","C17",[("matrix.go","		C: math.Tan(theta),","		C: math.Max(-50, math.Min(50, math.Tan(theta))),")],T('''	m := svg.Identity.SkewX(1.56)
	if x, _ := m.Transform(0, 1); x < 92 || x > 93 {
		t.Fatal(x)
	}
'''),"a skew close to a right angle","it is limited")
bug("c18-trim-zeros","C18",[("path.go",'	return fmt.Sprintf("M%4.3f,%4.3f", float64(op.X)/64, float64(op.Y)/64)','	return strings.TrimRight(fmt.Sprintf("M%4.3f,%4.3f", float64(op.X)/64, float64(op.Y)/64), ".0")')],T('''	p := svg.Path{svg.OpMoveTo{X: 64, Y: 6400}}
	s := must(t, "<svg><path d='"+p.String()+"'/></svg>")
	if s.SvgPaths[0].Path[0] != p[0] {
		t.Fatal(p.String())
	}
'''),"a moveto with a y of zero or a multiple of ten","the number is shortened too far")
bug("c20-miter-scaled","C20",[("renderer/rasterx/draw.go","			svgp.Style.Join.MiterLimit,\n","			fixed.Int26_6(float64(svgp.Style.Join.MiterLimit)*m.LineWidthScale()),\n")],T('''	draw := func(text string) *image.RGBA {
		img := image.NewRGBA(image.Rect(0, 0, 100, 100))
		sc := rasterx.NewScannerGV(100, 100, img, img.Bounds())
		rxr.Draw(rasterx.NewDasher(100, 100, sc), must(t, text))
		return img
	}
	a := draw(`<svg viewBox="0 0 100 100"><path d="M10 50L50 45 10 40" fill="none" stroke="red" stroke-width="4" stroke-linejoin="miter" stroke-miterlimit="2"/></svg>`)
	b := draw(`<svg viewBox="0 0 100 100"><path transform="scale(10)" d="M1 5L5 4.5 1 4" fill="none" stroke="red" stroke-width=".4" stroke-linejoin="miter" stroke-miterlimit="2"/></svg>`)
	for x := 54; x < 80; x++ {
		_, _, _, p := a.At(x, 45).RGBA()
		_, _, _, q := b.At(x, 45).RGBA()
		if (p > 0x8000) != (q > 0x8000) {
			t.Fatal(x, p, q)
		}
	}
'''),"a mitred stroke under a scale","the miter limit, a ratio, is scaled",[RX,"image","github.com/srwiley/rasterx"])
bug("c22-rounded-scale","C22",[("renderer/options.go","	r.Target = svg.Identity","	scaleW, scaleH = math.Round(scaleW*1000)/1000, math.Round(scaleH*1000)/1000\n	r.Target = svg.Identity")],T('''	s := must(t, `<svg viewBox="0 0 3000 3000"/>`)
	o := renderer.Options(s, renderer.Target(0, 0, 1000, 1000))
	if x, _ := o.Target.Transform(3000, 0); x < 999.99 || x > 1000.01 {
		t.Fatal(x)
	}
'''),"a ratio of target and viewBox with more than three decimals","the right edge is missed",[RR])
bug("c23-viewbox-default","C23",[("renderer/options.go","	if s.ViewBox.W != 0 {","	if s.ViewBox.W == 0 {\n		s.ViewBox.W = o.W\n	}\n	if s.ViewBox.W != 0 {")],T('''	s := must(t, `<svg/>`)
	renderer.Options(s, renderer.Target(0, 0, 1000, 1000))
	if s.ViewBox.W != 0 {
		t.Fatal(s.ViewBox)
	}
'''),"a document without viewBox and size drawn with a target","its viewBox is changed",[RR])
bug("c21-radial-focus","C21",[("renderer/gg/draw.go","gg.NewRadialGradient(dir[2], dir[3], dir[5], dir[0], dir[1], dir[4])","gg.NewRadialGradient(dir[2], dir[3], 0, dir[0], dir[1], dir[4])")],T('''	s := must(t, `<svg viewBox="0 0 40 40"><radialGradient id="g" gradientUnits="userSpaceOnUse" cx="20" cy="20" r="20" fr="10"><stop offset="0" stop-color="red"/><stop offset="1" stop-color="blue"/></radialGradient><rect width="40" height="40" fill="url(#g)"/></svg>`)
	gc := gg.NewContext(40, 40)
	ggr.Draw(gc, s)
	if r, _, b, _ := gc.Image().At(28, 20).RGBA(); r < 0xe000 || b > 0x2000 {
		t.Fatal(r, b)
	}
'''),"a radial gradient with a focal radius","the focal radius is ignored",[GG,"github.com/fogleman/gg"])
bug("c19-fill-last","C19",[("renderer/draw2d/draw.go","		gc.SetFillRule(fr)\n","		if len(svgp.Path) > 5 {\n			gc.SetFillRule(fr)\n		}\n")],T('''	img := image.NewRGBA(image.Rect(0, 0, 40, 40))
	d2r.Draw(draw2dimg.NewGraphicContext(img), must(t, `<svg><path d="M0 0h1v1h-1v-1h1v1" fill="red" fill-rule="evenodd"/><path d="M0 20Q20 -20 40 20Q20 60 0 20Q20 -20 40 20Q20 60 0 20" fill="blue"/></svg>`))
	if _, _, x, _ := img.At(20, 20).RGBA(); x == 0 {
		t.Fatal("hole")
	}
'''),"a path of up to five operations after one of another fill rule","it is filled with the rule of the earlier path",[D2,"image","github.com/llgcode/draw2d/draw2dimg"])

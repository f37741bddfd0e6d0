exec(open("/verif/tools/bugs3.py").read().split('bug("c01-mixed-smooth"')[0])
bug("c01-implicit-after-z","C01",[("parse_path.go","		c.pathStartX, c.pathStartY = c.points[0], c.points[1]\n		c.inPath = true\n","		if n := len(c.path); n == 0 || l == 2 || c.inPath {\n			c.pathStartX, c.pathStartY = c.points[0], c.points[1]\n		} else {\n			c.pathStartX, c.pathStartY = c.points[l-2], c.points[l-1]\n			c.path.Start(toFixedP(c.points[0]+c.curX, c.points[1]+c.curY))\n			c.path = c.path[:len(c.path)-1]\n		}\n		c.inPath = true\n")],
 pathdemo('<svg><path d="M0 0L1 1zM4 4 8 4 8 8z"/></svg>',"0,0,1,1,4,4,8,4,8,8"),"a moveto with implicit linetos right after a closepath","the subpath starts at its last point")
bug("c01-cubic-two-groups","C01",[("parse_path.go","		c.cntlPtX, c.cntlPtY = c.points[l-4], c.points[l-3]\n		c.placeX = c.points[l-2]\n		c.placeY = c.points[l-1]\n	case 's':","		if l <= 12 || k == 'C' {\n			c.cntlPtX, c.cntlPtY = c.points[l-4], c.points[l-3]\n		}\n		c.placeX = c.points[l-2]\n		c.placeY = c.points[l-1]\n	case 's':")],
 pathdemo('<svg><path d="M0 0c0 1 1 1 1 0 0 1 1 1 1 0 0 1 1 1 1 0s1 1 1 0"/></svg>',"0,0,0,1,1,1,1,0,1,1,2,1,2,0,2,1,3,1,3,0,3,-1,4,1,4,0"),"a smooth curve after a relative curve command with three groups","a wrong control point")
bug("c02-arc-after-arc","C02",[("parse_path.go","			c.addArcFromA(c.points[i:])\n","			if i > 0 {\n				c.points[i+2] = c.points[2]\n			}\n			c.addArcFromA(c.points[i:])\n")],T('''	a := must(t, `<svg><path d="M0 0A5 2 30 0 1 3 4 5 2 60 0 1 6 6"/></svg>`).SvgPaths[0].Path.String()
	b := must(t, `<svg><path d="M0 0A5 2 30 0 1 3 4A5 2 60 0 1 6 6"/></svg>`).SvgPaths[0].Path.String()
	if a != b {
		t.Fatal(a, b)
	}
'''),"repeated arc groups with different rotations","the first rotation counts")
bug("c03-exponent-upper","C03",[("parse_path.go","		if n == 'e' || n == 'E' {","		if n == 'e' {")],pathdemo('<svg><path d="M1E1.5 2 3"/></svg>',"10,0.5,2,3"),"a dot right after an exponent written with E","it is an error")
bug("c03-minus-after-dot","C03",[("parse_path.go","			if r == '-' {\n				lastIndex = i","			if r == '-' && lr != '.' {\n				lastIndex = i")],pathdemo('<svg><path d="M1.-2 3 4"/></svg>',"1,-2,3,4"),"a minus right after a trailing dot","the sign is lost")
bug("c04-ry-only","C04",[("svg_elements.go","	if !hasRx {\n		rx = ry\n	}","	if !hasRx {\n		rx = math.Min(ry, h/2)\n	}")],T('''	a := must(t, `<svg><rect width="40" height="4" ry="10"/></svg>`).SvgPaths[0].Path.String()
	b := must(t, `<svg><rect width="40" height="4" rx="10" ry="10"/></svg>`).SvgPaths[0].Path.String()
	if a != b {
		t.Fatal(a, b)
	}
'''),"a vertical radius above half the height and no horizontal one","the limited one is copied")
bug("c05-space-unit-perc","C05",[("units.go","		if strings.HasSuffix(s, suffix) {\n","		if strings.HasSuffix(s, suffix) && !(len(s) > 8 && suffix == \"%\") {\n")],pathdemo('<svg viewBox="0 0 100 100"><line x2="12.500000%"/></svg>',"0,0,12.5,0"),"a percentage with many digits","it is an error")
bug("c05-width-viewbox-h","C05",[("svg_elements.go","	if c.svg.ViewBox.W == 0 {\n","	if c.svg.ViewBox.W == 0 && (height == 0 || c.svg.ViewBox.H == 0) {\n")],pathdemo('<svg viewBox="0 0 0 50" width="80" height="40"><line x2="50%"/></svg>',"0,0,40,0"),"a viewBox of no width with a height","the width attribute is not used")
bug("c06-inherit-mask-cap","C06",[("parse.go","			curStyle.Join.TrailLineCap = SquareCap\n","			curStyle.Join.TrailLineCap = SquareCap\n			if curStyle.Join.LeadLineCap == RoundCap {\n				curStyle.Join.LeadLineCap = SquareCap\n			}\n")],styledemo('<svg><g stroke-leadlinecap="round"><line x2="4" stroke-linecap="square"/></g></svg>',"st.Join.LeadLineCap == svg.RoundCap"),"a square cap under a round lead cap","the lead cap changes")
bug("c06-fill-opacity-none","C06",[("parse.go","		optCol, err := parseSVGColor(v)\n		curStyle.FillerColor = optCol.asPattern()\n		return err","		optCol, err := parseSVGColor(v)\n		if curStyle.FillerColor == nil && optCol.valid {\n			curStyle.FillOpacity = 1\n		}\n		curStyle.FillerColor = optCol.asPattern()\n		return err")],styledemo('<svg><g fill="none" opacity=".5"><line x2="4" fill="red"/></g></svg>',"st.FillOpacity == .5"),"a fill set again below a group that has none","its opacity is reset")
bug("c07-rgb-clamp-negative-percent","C07",[("patterns.go","	if n < 0 {\n		n = 0\n	}\n","	if n < 0 && max == 0xFF {\n		n = 0\n	}\n")],styledemo('<svg><line x2="4" fill="rgb(-5%,0,0)"/></svg>',"st.FillerColor == svg.NewPlainColor(0, 0, 0, 255)"),"a negative percentage","it wraps around")
bug("c08-rotate-centre-nested","C08",[("parse.go","			m1 = m1.Translate(c.points[1], c.points[2]).\n				Rotate(c.points[0]*math.Pi/180).\n				Translate(-c.points[1], -c.points[2])","			r := Identity.Rotate(c.points[0] * math.Pi / 180)\n			x, y := r.Transform(-c.points[1], -c.points[2])\n			r.E, r.F = c.points[1]+x, c.points[2]+y\n			if m1.C == 0 && m1.E != 0 {\n				r.E, r.F = m1.A*r.E, m1.D*r.F\n				m1 = Identity.Translate(m1.E+r.E, m1.F+r.F).Scale(m1.A, m1.D).Mult(Matrix2D{r.A, r.B, r.C, r.D, 0, 0})\n			} else {\n				m1 = m1.Mult(r)\n			}")],styledemo('<svg><line x2="4" transform="matrix(1 2 0 1 3 4) rotate(90 5 6)"/></svg>',"st.Transform.F > 26.9 && st.Transform.F < 27.1"),"a rotation about a centre after a vertical skew with translation","the skew is lost")
bug("c09-style-leftover","C09",[("svg_elements.go","			if err = c.handleError(\"Cannot process svg element %s\", def.Tag); err != nil {\n				return err\n			}\n			continue","			if err = c.handleError(\"Cannot process svg element %s\", def.Tag); err != nil {\n				return err\n			}\n			c.styleStack[len(c.styleStack)-1] = c.styleStack[len(c.styleStack)-2]\n			continue")],T('''	s, err := svg.Parse(strings.NewReader(`<svg><defs><text id="a" fill="red"><line x2="4"/></text></defs><use href="#a"/></svg>`), svg.IgnoreErrorMode)
	if err != nil || s.SvgPaths[0].Style.FillerColor != svg.NewPlainColor(255, 0, 0, 255) {
		t.Fatal(s, err)
	}
'''),"an unsupported element with a style around a shape in a definition","its style is ignored")
bug("c10-matrix-kept","C10",[("patterns.go","		c.grad.Matrix, err = c.parseTransform(Identity, attr.Value)","		c.grad.Matrix, err = c.parseTransform(c.grad.Matrix, attr.Value)"),("svg_elements.go","	c.inGrad = true\n	c.grad = &Gradient{Bounds: c.svg.ViewBox, Matrix: Identity}\n	var setFx","	c.inGrad = true\n	base := Identity\n	if c.inDefs && c.grad != nil {\n		base = Matrix2D{A: 1, D: 1, E: c.grad.Matrix.E * 0, F: c.grad.Matrix.C}\n	}\n	c.grad = &Gradient{Bounds: c.svg.ViewBox, Matrix: base}\n	var setFx")],T('''	s := must(t, `<svg><defs><linearGradient id="a" gradientTransform="rotate(45)"><stop/></linearGradient><radialGradient id="b"><stop/></radialGradient></defs><line x2="1" fill="url(#b)"/></svg>`)
	if g := s.SvgPaths[0].Style.FillerColor.(svg.Gradient); g.Matrix != svg.Identity {
		t.Fatal(g)
	}
'''),"a radial gradient after a rotated gradient in definitions","it is moved")
bug("c10-spread-radial-reset","C10",[("svg_elements.go","	if !setFx { // set fx to cx by default","	if c.grad.Spread == ReflectSpread && setFx != setFy {\n		c.grad.Spread = RepeatSpread\n	}\n	if !setFx { // set fx to cx by default")],T('''	s := must(t, `<svg><radialGradient id="b" spreadMethod="reflect" fx="1"><stop/></radialGradient><line x2="1" fill="url(#b)"/></svg>`)
	if g := s.SvgPaths[0].Style.FillerColor.(svg.Gradient); g.Spread != svg.ReflectSpread {
		t.Fatal(g)
	}
'''),"a reflected radial gradient with only one focus coordinate","it repeats")
bug("c10-default-colour-gradient","C10",[("patterns.go","			clr := GetColor(defaultColor)\n","			clr := GetColor(defaultColor)\n			if d, ok := defaultColor.(Gradient); ok && len(d.Stops) > 1 {\n				clr = d.Stops[len(d.Stops)-1].StopColor\n			}\n")],T('''	s := must(t, `<svg><linearGradient id="a"><stop stop-color="red"/><stop stop-color="blue"/></linearGradient><linearGradient id="b"><stop/></linearGradient><g fill="url(#a)"><line x2="1" fill="url(#b)"/></g></svg>`)
	if c := s.SvgPaths[0].Style.FillerColor.(svg.Gradient).Stops[0].StopColor; c != svg.NewPlainColor(255, 0, 0, 255) {
		t.Fatal(c)
	}
'''),"a gradient without colours below a fill with a gradient of several stops","the last stop's colour is current")
bug("c11-mask-defs-after","C11",[("svg.go","					svgCursor.inDefs, svgCursor.currentDef = open.inDefs, open.defs\n","					svgCursor.inDefs, svgCursor.currentDef = open.inDefs, open.defs\n					if len(open.mask.SvgPaths) == 0 && n > 1 {\n						svgCursor.masks = svgCursor.masks[:n-2]\n						break\n					}\n")],T('''	s := must(t, `<svg><mask id="a"><mask id="b"/><line x2="1"/></mask><line x2="2"/></svg>`)
	if len(s.SvgPaths) != 1 || s.SvgMasks["a"] == nil {
		t.Fatal(s)
	}
'''),"an empty mask inside a mask","the outer one ends")
bug("c11-size-percent","C11",[("svg_elements.go","		case \"height\":\n			h, err = c.parseUnit(attr.Value, heightPercentage)\n		}\n		if err != nil {\n			return err\n		}\n	}\n\n	c.masks","		case \"height\":\n			h, err = c.parseUnit(attr.Value, widthPercentage)\n		}\n		if err != nil {\n			return err\n		}\n	}\n\n	c.masks")],T('''	s := must(t, `<svg viewBox="0 0 10 20"><mask id="a" height="50%"/></svg>`)
	if s.SvgMasks["a"].H != 10 {
		t.Fatal(s.SvgMasks["a"])
	}
'''),"a mask height in percent","it refers to the width")
bug("c12-long-title","C12",[("svg.go","				svg.Titles[len(svg.Titles)-1] += string(se)","				if svg.Titles[len(svg.Titles)-1] += string(se); len(svg.Titles[len(svg.Titles)-1]) > 4096 {\n					svg.Titles[len(svg.Titles)-1] = svg.Titles[len(svg.Titles)-1][:4096]\n				}")],T('''	x := strings.Repeat("x", 5000)
	if s := must(t, `<svg><title>`+x+`</title></svg>`); s.Titles[0] != x {
		t.Fatal(len(s.Titles[0]))
	}
'''),"a title of more than 4096 bytes","it is cut")
bug("c12-second-root","C12",[("svg.go","			seenTag = true\n","			if seenTag && len(svgCursor.styleStack) == 1 {\n				return svg, nil\n			}\n			seenTag = true\n")],T('''	s, err := svg.Parse(strings.NewReader(`<svg><line x2="1"/></svg><svg>`), svg.IgnoreErrorMode)
	if err == nil {
		t.Fatal(s)
	}
'''),"a second root element that is not closed","no error")
bug("c13-warn-defs-text","C13",[("svg_elements.go","			if err = c.handleError(\"Cannot process svg element %s\", def.Tag); err != nil {","			if err = c.handleError(\"Cannot process svg element %s\", def.Tag); err != nil && len(c.uses) < 2 {")],T('''	if _, err := svg.Parse(strings.NewReader(`<svg><defs><g id="a"><text/></g><g id="b"><use href="#a"/></g></defs><use href="#b"/></svg>`), svg.StrictErrorMode); err == nil {
		t.Fatal("no error")
	}
'''),"unsupported content reached through two uses in strict mode","no error")
bug("c13-gap-value","C13",[("parse.go","			return c.handleError(\"unsupported value '%s' for <stroke-linegap>\", v)","			if v == \"inherit\" {\n				break\n			}\n			return c.handleError(\"unsupported value '%s' for <stroke-linegap>\", v)")],errdemo('<svg><line x2="1" stroke-linegap="inherit"/></svg>',"StrictErrorMode"),"the value inherit","no error in strict mode")
bug("c14-empty-points","C14",[("svg_elements.go","	if len(c.points) >= 4 {\n		c.path.Stop(true)","	if c.path[len(c.path)-1] != (OpClose{}) {\n		c.path.Stop(true)")],T('''	must(t, `<svg><polygon points=""/></svg>`)
'''),"a polygon without points","panic")
bug("c16-shared-defs","C16",[("svg.go","		grads:     make(map[string]*Gradient),\n","		grads:     noGrads,\n"),("svg.go","// Parse reads the Icon","var noGrads = map[string]*Gradient{}\n\n// Parse reads the Icon")],T('''	must(t, `<svg><linearGradient id="a"><stop/></linearGradient></svg>`)
	s := must(t, `<svg><line x2="1" fill="url(#a)"/></svg>`)
	if _, ok := s.SvgPaths[0].Style.FillerColor.(svg.Gradient); ok {
		t.Fatal(s)
	}
'''),"a reference to a gradient of a document parsed before","it is found")
bug("c17-linewidth-max","C17",[("matrix.go","	return (math.Hypot(t.A, t.B) + math.Hypot(t.C, t.D)) / 2","	if t.B == 0 && t.C == 0 {\n		return (t.A + t.D) / 2\n	}\n	return (math.Hypot(t.A, t.B) + math.Hypot(t.C, t.D)) / 2")],T('''	if w := (svg.Matrix2D{A: -2, D: 2}).LineWidthScale(); w != 2 {
		t.Fatal(w)
	}
'''),"a mirrored scale","wrong line width")
bug("c18-clear-shared","C18",[("path.go","	*p = (*p)[:0]\n","	if cap(*p) > 64 {\n		*p = (*p)[:1]\n		return\n	}\n	*p = (*p)[:0]\n")],T('''	var p svg.Path
	for i := 0; i < 100; i++ {
		p.Stop(true)
	}
	p.Clear()
	if len(p) != 0 {
		t.Fatal(p)
	}
'''),"clearing a long path","one operation stays")
bug("c19-mirror-width","C19",[("renderer/draw2d/draw.go","		gc.SetLineDash(renderer.Dashes(svgp.Style.Dash, m.LineWidthScale()))","		d, o := renderer.Dashes(svgp.Style.Dash, m.LineWidthScale())\n		if len(d) > 2 && d[0] == d[2] {\n			d = d[:2]\n		}\n		gc.SetLineDash(d, o)")],T('''	s := must(t, `<svg><line x2="90" y1="5" y2="5" stroke="red" stroke-width="4" stroke-dasharray="10 2 10 20"/></svg>`)
	img := image.NewRGBA(image.Rect(0, 0, 100, 10))
	d2r.Draw(draw2dimg.NewGraphicContext(img), s)
	if c := img.RGBAAt(30, 5); c.A > 10 {
		t.Fatal(c)
	}
'''),"four dashes with equal first and third","only two are used",[D2,"image",'"github.com/llgcode/draw2d/draw2dimg"'])
bug("c20-opacity-gradient-stroke","C20",[("renderer/rasterx/draw.go","			stroker.SetColor(g.GetColorFunctionUS(svgp.Style.LineOpacity*opt.Opacity, rasterx.Matrix2D(m)))","			stroker.SetColor(g.GetColorFunctionUS(svgp.Style.LineOpacity, rasterx.Matrix2D(m)))")],T('''	s := must(t, `<svg><linearGradient id="a"><stop stop-color="red"/><stop offset="1" stop-color="red"/></linearGradient><line x2="20" y2="20" stroke="url(#a)" stroke-width="8"/></svg>`)
	img := image.NewRGBA(image.Rect(0, 0, 20, 20))
	rxr.Draw(rasterx.NewDasher(20, 20, rasterx.NewScannerGV(20, 20, img, img.Bounds())), s, renderer.Opacity(.5))
	if c := img.RGBAAt(10, 10); c.A > 200 {
		t.Fatal(c)
	}
'''),"a stroke with a gradient and the opacity option","the option is ignored",[RX,RR,"image",'"github.com/srwiley/rasterx"'])
bug("c21-mask-target","C21",[("renderer/gg/draw.go","drawTransformed(gc, s, op, m.Mult(op.Style.Transform), 1, active)","drawTransformed(gc, s, op, m.Mult(op.Style.Transform), op.Style.FillOpacity, active)")],T('''	draw := func(o string) uint8 {
		s := must(t, `<svg><mask id="m"><rect width="20" height="20" fill="white" `+o+`/></mask><rect width="20" height="20" mask="url(#m)"/></svg>`)
		gc := gg.NewContext(20, 20)
		ggr.Draw(gc, s)
		_, _, _, a := gc.Image().At(10, 10).RGBA()
		return uint8(a >> 8)
	}
	if a := draw(`opacity=".5"`); a < 110 || a > 140 {
		t.Fatal(a)
	}
'''),"mask content that is partly transparent","its opacity counts twice",[GG,'"github.com/fogleman/gg"'])
bug("c23-mask-order","C23",[("renderer/gg/draw.go","	for _, op := range mask.SvgPaths {\n","	if n := len(mask.SvgPaths); n > 2 && mask.SvgPaths[n-1].Style.FillerColor == nil {\n		mask.SvgPaths = mask.SvgPaths[:n-1]\n	}\n	for _, op := range mask.SvgPaths {\n")],T('''	s := must(t, `<svg><mask id="m"><line x2="1"/><line x2="2"/><line x2="3" fill="none" stroke="red"/></mask><rect width="20" height="20" mask="url(#m)"/></svg>`)
	ggr.Draw(gg.NewContext(20, 20), s)
	if len(s.SvgMasks["m"].SvgPaths) != 3 {
		t.Fatal(s.SvgMasks["m"])
	}
'''),"a mask of three shapes, the last without fill","drawing removes it from the document",[GG,'"github.com/fogleman/gg"'])
bug("c24-copy-grads","C24",[("renderer/rasterx/draw.go","	for _, svgp := range s.SvgPaths {\n","	for _, svgp := range s.SvgPaths[:len(s.SvgPaths):len(s.SvgPaths)] {\n		if s.Transform != svg.Identity {\n			svgp.Style.Transform = s.Transform.Mult(svgp.Style.Transform)\n		}\n")],T('''	s := must(t, `<svg><rect width="20" height="20"/></svg>`)
	img := image.NewRGBA(image.Rect(0, 0, 20, 20))
	c := &svg.Svg{SvgPaths: s.SvgPaths}
	rxr.Draw(rasterx.NewDasher(20, 20, rasterx.NewScannerGV(20, 20, img, img.Bounds())), c)
	if c := img.RGBAAt(10, 10); c.A < 200 {
		t.Fatal(c)
	}
'''),"a document assembled without a transform","nothing is drawn",[RX,"image",'"github.com/srwiley/rasterx"'])

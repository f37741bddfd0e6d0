exec(open("/verif/tools/bugs3.py").read().split('bug("c01-mixed-smooth"')[0])
bug("c01-null-line","C01",[("parse_path.go","		for i := 0; i < l-1; i += 2 {\n			c.path.Line(fixed.Point26_6{\n				X: fixed.Int26_6((c.points[i] + c.curX) * 64),\n				Y: fixed.Int26_6((c.points[i+1] + c.curY) * 64),\n			})\n		}\n		c.placeX = c.points[l-2]\n		c.placeY = c.points[l-1]\n	case 'v':","		for i := 0; i < l-1; i += 2 {\n			if len(c.path) > 1 && c.points[i] == c.placeX && c.points[i+1] == c.placeY {\n				continue\n			}\n			c.path.Line(fixed.Point26_6{\n				X: fixed.Int26_6((c.points[i] + c.curX) * 64),\n				Y: fixed.Int26_6((c.points[i+1] + c.curY) * 64),\n			})\n		}\n		c.placeX = c.points[l-2]\n		c.placeY = c.points[l-1]\n	case 'v':")],
 pathdemo('<svg><path d="M0 0L5 5L6 6 5 5"/></svg>',"0,0,5,5,6,6,5,5"),"a line list that returns to where it began","the return is dropped")
bug("c01-after-arc","C01",[("parse_path.go","	case 'q', 'Q', 'T', 't':\n","	case 'q', 'Q', 'T', 't', 'a':\n")],
 pathdemo('<svg><path d="M0 0Q2 4 4 0a1 1 0 0 0 0 0T8 0"/></svg>',"0,0,2,4,4,0,4,0,8,0"),"a smooth quadratic curve after a relative arc","an old control point is reflected")
bug("c04-dup-point","C04",[("svg_elements.go","		for i := 2; i < len(c.points)-1; i += 2 {\n","		if n := len(c.points); n > 8 && c.points[0] == c.points[n-2] && c.points[1] == c.points[n-1] {\n			c.points = c.points[:n-4]\n		}\n		for i := 2; i < len(c.points)-1; i += 2 {\n")],
 pathdemo('<svg><polyline points="0 0 4 0 4 4 0 4 0 0"/></svg>',"0,0,4,0,4,4,0,4,0,0"),"a polyline of five or more points that ends where it starts","two points are lost")
bug("c05-dash-unit","C05",[("parse.go","			d, err := c.parseUnit(strings.TrimSpace(dstr), diagPercentage)\n","			if i > 0 && strings.HasSuffix(dashes[0], \"mm\") && !strings.ContainsAny(dstr, \"%cimpq\") {\n				dstr += \"mm\"\n			}\n			d, err := c.parseUnit(strings.TrimSpace(dstr), diagPercentage)\n")],
 styledemo('<svg><line x2="5" stroke-dasharray="4mm 3"/></svg>',"st.Dash.Dash[1] == 3"),"a dash list of which only the first value has a unit","it holds for the others too")
bug("c05-root-percent","C05",[("svg_elements.go","	if c.svg.ViewBox.W == 0 {\n		c.svg.ViewBox.W = width\n	}","	if c.svg.ViewBox.W == 0 || c.svg.ViewBox.W < c.svg.ViewBox.X {\n		c.svg.ViewBox.W = width\n	}")],
 pathdemo('<svg viewBox="50 0 40 40" width="80"><line x2="50%"/></svg>',"0,0,20,0"),"a viewBox that starts beyond its own width","its width is replaced")
bug("c06-attr-and-style","C06",[("parse.go","	case \"stroke-dashoffset\":\n		dashOffset, err","	case \"stroke-dashoffset\":\n		if len(curStyle.Dash.Dash) == 0 && curStyle.Dash.DashOffset != 0 {\n			break\n		}\n		dashOffset, err")],
 styledemo('<svg><g stroke-dashoffset="2"><line x2="5" stroke-dashoffset="3" stroke-dasharray="4 4"/></g></svg>',"st.Dash.DashOffset == 3"),"a dash offset below another one that has no dashes","it is ignored")
bug("c08-style-transform","C08",[("parse.go","	case \"transform\":\n		m, err","	case \"transform\":\n		if v == \"none\" && curStyle.Transform != Identity {\n			break\n		}\n		m, err")],
 errdemo('<svg><g transform="scale(2)"><line x2="5" transform="none"/></g></svg>'),"a malformed transform below another transform","it is not reported")
bug("c08-nested-matrix","C08",[("parse.go","			m1 = m1.Scale(c.points[0], c.points[0])\n","			if m1.A == 0 && m1.D == 0 {\n				m1 = m1.Scale(1, c.points[0])\n				break\n			}\n			m1 = m1.Scale(c.points[0], c.points[0])\n")],
 styledemo('<svg><line x2="5" transform="matrix(0 1 -1 0 0 0)scale(2)"/></svg>',"st.Transform.B == 2"),"a uniform scale after a matrix that swaps the axes","only one axis is scaled")
bug("c09-def-in-mask","C09",[("svg_elements.go","	c.uses = append(c.uses, href[1:])\n","	if len(c.masks) > 1 {\n		x, y = 0, 0\n	}\n	c.uses = append(c.uses, href[1:])\n")],T('''	s := must(t, `<svg><defs><line id="a" x2="1"/></defs><mask id="m"><mask id="n"><use href="#a" x="5"/></mask></mask></svg>`)
	if s.SvgMasks["n"].SvgPaths[0].Style.Transform.E != 5 {
		t.Fatal(s.SvgMasks["n"].SvgPaths[0])
	}
'''),"a use element in a mask inside of a mask","its offset is lost")
bug("c10-single-stop","C10",[("patterns.go","	grad := *g\n","	grad := *g\n	if len(grad.Stops) == 1 {\n		grad.Stops = []GradStop{{StopColor: grad.Stops[0].StopColor, Opacity: grad.Stops[0].Opacity}}\n	}\n")],T('''	s := must(t, `<svg><linearGradient id="a"><stop offset=".5" stop-color="red"/></linearGradient><line x2="4" fill="url(#a)"/></svg>`)
	if g := s.SvgPaths[0].Style.FillerColor.(svg.Gradient); g.Stops[0].Offset != .5 {
		t.Fatal(g.Stops)
	}
'''),"a gradient of a single stop with an offset","the offset is lost")
bug("c10-user-transform","C10",[("svg_elements.go","	c.grad.Direction = direction\n	return nil\n}\n\nfunc radialGradientF","	if c.grad.Units == UserSpaceOnUse && c.grad.Matrix.B == 0 && c.grad.Matrix.C == 0 && c.grad.Spread == RepeatSpread {\n		c.grad.Matrix = Identity.Translate(c.grad.Matrix.E, c.grad.Matrix.F)\n	}\n	c.grad.Direction = direction\n	return nil\n}\n\nfunc radialGradientF")],T('''	s := must(t, `<svg><linearGradient id="a" gradientUnits="userSpaceOnUse" spreadMethod="repeat" gradientTransform="scale(2)"><stop/></linearGradient><line x2="4" fill="url(#a)"/></svg>`)
	if g := s.SvgPaths[0].Style.FillerColor.(svg.Gradient); g.Matrix.A != 2 {
		t.Fatal(g.Matrix)
	}
'''),"a repeating gradient in user space with a scale","the scale is lost")
bug("c11-mask-in-use","C11",[("parse.go","		masks := curStyle.Masks\n","		masks := curStyle.Masks\n		if len(c.uses) > 0 && len(masks) > 1 {\n			masks = masks[1:]\n		}\n")],
 styledemo('<svg><defs><line id="a" x2="1" mask="url(#c)"/></defs><g mask="url(#d)"><use href="#a" mask="url(#b)"/></g></svg>',"len(st.Masks) == 3"),"a masked definition used by a masked use in a masked group","the outer mask is lost")
bug("c12-size-inherit","C12",[("svg_elements.go","			c.svg.Height = attr.Value\n","			if c.svg.Height = attr.Value; c.svg.Width == c.svg.Height+\"px\" {\n				c.svg.Height = c.svg.Width\n			}\n")],T('''	if s := must(t, `<svg width="5px" height="5"/>`); s.Height != "5" {
		t.Fatal(s.Height)
	}
'''),"a height equal to the width but without its unit","the text of the height changes")
bug("c13-unknown-in-mask","C13",[("parse.go","		errStr := \"Cannot process svg element \" + se.Name.Local\n","		errStr := \"Cannot process svg element \" + se.Name.Local\n		if len(c.masks) > 0 && len(c.uses) == 0 && c.errorMode == WarnErrorMode {\n			return nil\n		}\n")],T('''	var b bytes.Buffer
	log.SetOutput(&b)
	if _, err := svg.Parse(strings.NewReader(`<svg><mask id="m"><foo/></mask></svg>`), svg.WarnErrorMode); err != nil || b.Len() == 0 {
		t.Fatal(err, b.Len())
	}
'''),"an unsupported element in a mask in warn mode","there is no warning",["bytes","log"])
bug("c14-mask-chain","C14",[("renderer/gg/draw.go","	id := masks[len(masks)-1]\n","	id := masks[len(masks)-1]\n	if len(masks) > 2 && len(s.SvgMasks) < 2 {\n		id = masks[len(s.SvgMasks[id].SvgPaths)]\n	}\n")],T('''	s := must(t, `<svg viewBox="0 0 4 4"><g mask="url(#a)"><g mask="url(#a)"><line x2="3" stroke="red" mask="url(#a)"/></g></g></svg>`)
	if err := ggr.Draw(gg.NewContext(4, 4), s); err != nil {
		t.Fatal(err)
	}
'''),"three references to a mask that does not exist","drawing panics",["github.com/fogleman/gg",GG])
bug("c15-short-read","C15",[("svg.go","	source := &errReader{Reader: stream}\n","	if l, ok := stream.(interface{ Len() int }); ok && l.Len() > 0 {\n		stream = io.LimitReader(stream, int64(l.Len()))\n	}\n	source := &errReader{Reader: stream}\n")],T('''	s, err := svg.Parse(&growing{r: strings.NewReader(`<svg><line x2="1"/></svg>`)}, svg.StrictErrorMode)
	if err != nil || len(s.SvgPaths) != 1 {
		t.Fatal(err)
	}
}

type growing struct{ r *strings.Reader }

func (g *growing) Len() int                   { return 5 }
func (g *growing) Read(p []byte) (int, error) { return g.r.Read(p) }

func init() {
'''),"a reader that tells the length of what it buffers","only that much is read")
bug("c17-vector-scale","C17",[("matrix.go","	y.X = limitFixed((float64(x.X)*a.A + float64(x.Y)*a.C) + a.E*64)\n","	if x.X == x.Y && a.A == -a.C {\n		y.Y = limitFixed((float64(x.X)*a.B + float64(x.Y)*a.D) + a.F*64)\n		return\n	}\n	y.X = limitFixed((float64(x.X)*a.A + float64(x.Y)*a.C) + a.E*64)\n")],T('''	m := svg.Matrix2D{A: 1, B: 1, C: -1, D: 1, E: 5}
	if p := m.TFixed(fixed.P(3, 3)); p.X != 5*64 {
		t.Fatal(p)
	}
'''),"a point on the diagonal under a rotation by 45 degrees with a translation","the translation is lost",["golang.org/x/image/math/fixed"])
bug("c18-long-string","C18",[("path.go","	return strings.Join(chunks, \" \")","	if n := len(chunks); n > 1 && chunks[n-1] == \"Z\" && chunks[n-2] == \"Z\" {\n		chunks = chunks[:n-1]\n	}\n	return strings.Join(chunks, \" \")")],T('''	p := svg.Path{svg.OpMoveTo{}, svg.OpClose{}, svg.OpClose{}}
	if s := p.String(); strings.Count(s, "Z") != 2 {
		t.Fatal(s)
	}
'''),"a path that ends with two closes","one is not printed")
bug("c19-same-colour","C19",[("renderer/draw2d/draw.go","	if svgp.Style.LinerColor != nil {\n		gc.SetLineCap","	if svgp.Style.LinerColor != nil && svgp.Style.LinerColor == svgp.Style.FillerColor && svgp.Style.LineWidth*m.LineWidthScale() < 0.25 {\n		svgp.Style.LinerColor = nil\n	}\n	if svgp.Style.LinerColor != nil {\n		gc.SetLineCap")],T('''	gc := d2i.NewGraphicContext(image.NewRGBA(image.Rect(0, 0, 9, 9)))
	gc.SetLineWidth(7)
	d2r.Draw(gc, must(t, `<svg><rect width="4" height="4" fill="red" stroke="red" stroke-width=".125"/></svg>`))
	if gc.Current.LineWidth != .125 {
		t.Fatal(gc.Current.LineWidth)
	}
'''),"a thin stroke of the fill colour","it is not drawn",["image",'d2i "github.com/llgcode/draw2d/draw2dimg"',D2])
bug("c20-close-point","C20",[("renderer/rasterx/draw.go","		at = m.LineTo(op)\n		gc.Line(at)\n","		if to := m.LineTo(op); to.X != at.X || to.Y != at.Y || to.X == 0 {\n			gc.Line(to)\n			at = to\n		}\n")],T('''	img := image.NewRGBA(image.Rect(0, 0, 20, 20))
	d := rasterx.NewDasher(20, 20, rasterx.NewScannerGV(20, 20, img, img.Bounds()))
	rxr.Draw(d, must(t, `<svg><path d="M10 10L10 10" stroke="red" stroke-width="8" stroke-linecap="round"/></svg>`))
	img2 := image.NewRGBA(image.Rect(0, 0, 20, 20))
	d2 := rasterx.NewDasher(20, 20, rasterx.NewScannerGV(20, 20, img2, img2.Bounds()))
	rxr.Draw(d2, must(t, `<svg><path d="M0 0L0 0" transform="translate(10 10)" stroke="red" stroke-width="8" stroke-linecap="round"/></svg>`))
	if img.RGBAAt(10, 10) != img2.RGBAAt(10, 10) || img.RGBAAt(10, 10).A == 0 {
		t.Fatal(img.RGBAAt(10, 10), img2.RGBAAt(10, 10))
	}
'''),"a line of no length with round caps","its dot is not drawn",["image","github.com/srwiley/rasterx",RX])
bug("c21-stroke-mask","C21",[("renderer/gg/draw.go","	if svgp.Style.LinerColor != nil {\n		gc.Stroke()\n	}","	if svgp.Style.LinerColor != nil {\n		if svgp.Style.FillerColor == nil && len(svgp.Path) > 0 && mask == nil && svgp.Style.UseNonZeroWinding && len(active) > 0 {\n			gc.SetFillRuleEvenOdd()\n			gc.FillPreserve()\n		}\n		gc.Stroke()\n	}")],T('''	gc := gg.NewContext(20, 20)
	if err := ggr.Draw(gc, must(t, `<svg viewBox="0 0 20 20"><mask id="m"><path d="M1 1H19V19H1z" fill="none" stroke="white"/></mask><rect width="20" height="20" fill="red" mask="url(#m)"/></svg>`)); err != nil {
		t.Fatal(err)
	}
	if _, _, _, a := gc.Image().At(10, 10).RGBA(); a != 0 {
		t.Fatal(a)
	}
'''),"a mask of a stroked outline","its inside counts too",["github.com/fogleman/gg",GG])
bug("c23-empty-dash","C23",[("renderer/rasterx/draw.go","		stroker := gc\n		stroker.Clear()\n","		stroker := gc\n		stroker.Clear()\n		if d := svgp.Style.Dash.Dash; len(d) == 2 && d[0] == 0 && d[1] > 0 {\n			d[0] = 1. / 1024\n		}\n")],T('''	s := must(t, `<svg><line x2="4" stroke="red" stroke-dasharray="0 2"/></svg>`)
	img := image.NewRGBA(image.Rect(0, 0, 20, 20))
	rxr.Draw(rasterx.NewDasher(20, 20, rasterx.NewScannerGV(20, 20, img, img.Bounds())), s)
	if s.SvgPaths[0].Style.Dash.Dash[0] != 0 {
		t.Fatal(s.SvgPaths[0].Style.Dash)
	}
'''),"a dash list that starts with zero","the document changes",["image","github.com/srwiley/rasterx",RX])
bug("c22-tall-target","C22",[("renderer/options.go","		scaleH = o.H / s.ViewBox.H\n","		if scaleH = o.H / s.ViewBox.H; scaleH > 100*scaleW {\n			scaleH = 100 * scaleW\n		}\n")],T('''	s := must(t, `<svg viewBox="0 0 10 1"/>`)
	if m := renderer.Options(s, renderer.Target(0, 0, 1, 20)).Target; m.D != 20 {
		t.Fatal(m)
	}
'''),"a target much taller than the view box","its height is limited",[RR])

exec(open("/verif/tools/bugs3.py").read().split('bug("c01-mixed-smooth"')[0])
bug("c01-four-horizontals","C01",[("parse_path.go","		last += c.points[i]\n		c.points[i] = last","		if last += c.points[i]; i == 3 {\n			last -= c.points[0] * 0\n			last = c.points[i-1] + c.points[i]/1\n		}\n		c.points[i] = last\n		if i == 4 {\n			last = c.points[0]\n		}")],
 pathdemo('<svg><path d="M0 0h1 1 1 1 1 1"/></svg>',"0,0,1,0,2,0,3,0,4,0,5,0,6,0"),"six relative horizontal lines in one command","the last is in the wrong place")
bug("c02-near-circle","C02",[("shapes.go","		if *ra == *rb {","		if math.Abs(*ra-*rb) < 0.25 {")],T('''	a := must(t, `<svg><path d="M0 0A.3 .1 0 0 1 30 0"/></svg>`).SvgPaths[0].Path
	b := must(t, `<svg><path d="M0 0A15 5 0 0 1 30 0"/></svg>`).SvgPaths[0].Path
	if len(a) != len(b) {
		t.Fatal(a, b)
	}
	for i := range a {
		if c, ok := a[i].(svg.OpCubicTo); ok {
			if d := c[2].X - b[i].(svg.OpCubicTo)[2].X; d > 32 || d < -32 {
				t.Fatal(a, b)
			}
		}
	}
'''),"small different radii that are too short for the chord","they become equal")
bug("c02-small-rotation","C02",[("shapes.go","	cos, sin := math.Cos(rotX), math.Sin(rotX)\n\n	// Move","	cos, sin := math.Cos(rotX), math.Sin(rotX)\n	if math.Abs(sin) < 0.015 {\n		cos, sin = math.Copysign(1, cos), 0\n	}\n\n	// Move")],T('''	a := must(t, `<svg><path d="M0 0A5000 3 .8 0 0 300 0"/></svg>`).SvgPaths[0].Path
	b := must(t, `<svg><path d="M0 0A5000 3 .9 0 0 300 0"/></svg>`).SvgPaths[0].Path
	_ = b
	// the arc meets its end points, which are on the ellipse about the centre: compare with the mirrored arc
	c := must(t, `<svg><path d="M0 0A3 5000 90.8 0 0 300 0"/></svg>`).SvgPaths[0].Path
	if len(a) != len(c) {
		t.Fatal(a, c)
	}
	for i := range a {
		if x, ok := a[i].(svg.OpCubicTo); ok {
			y := c[i].(svg.OpCubicTo)
			for k := range x {
				if dx, dy := x[k].X-y[k].X, x[k].Y-y[k].Y; dx > 64 || dx < -64 || dy > 64 || dy < -64 {
					t.Fatal(a, c)
				}
			}
		}
	}
	d := must(t, `<svg><path d="M0 0A200 3 .8 0 0 100 1.5"/></svg>`).SvgPaths[0].Path
	if y := d[len(d)/2].(svg.OpCubicTo)[2].Y; y < 64*0 || y > 64*4 {
		e := must(t, `<svg><path d="M0 0A200 3 .8 0 1 100 1.5"/></svg>`).SvgPaths[0].Path
		t.Log(d, e)
	}
	if got := d[1].(svg.OpCubicTo)[0]; got.Y < 0 {
		t.Log(got)
	}
	checkArc(t, 200, 3, .8, 100, 1.5, d)
}

func checkArc(t *testing.T, rx, ry, rot, ex, ey float64, p svg.Path) {
	// every point of the curve is on one ellipse: fit the centre from the end points
	s, c := math.Sincos(rot * math.Pi / 180)
	ux, uy := (ex*c+ey*s)/rx, (-ex*s+ey*c)/ry
	mx, my := ux/2, uy/2
	h := math.Sqrt(1/(mx*mx+my*my) - 1)
	best := math.Inf(1)
	for _, k := range []float64{h, -h} {
		cx, cy := mx-my*k, my+mx*k
		worst := 0.0
		for _, op := range p {
			if q, ok := op.(svg.OpCubicTo); ok {
				x, y := float64(q[2].X)/64, float64(q[2].Y)/64
				px, py := (x*c+y*s)/rx-cx, (-x*s+y*c)/ry-cy
				worst = math.Max(worst, math.Abs(math.Hypot(px, py)-1))
			}
		}
		best = math.Min(best, worst)
	}
	if best > 0.02 {
		t.Fatal(best, p)
	}
'''),"an arc of a long thin ellipse with a rotation of less than a degree","its centre is that of the unrotated ellipse",['math'])
bug("c03-leading-zeros","C03",[("parse_path.go","	last := 0\n	isFirst := true","	last := 0\n	if strings.HasPrefix(numStr, \"00\") {\n		numStr = strings.TrimLeft(numStr, \"0\")\n	}\n	isFirst := true")],pathdemo('<svg><path d="M1 00L3 4"/></svg>',"1,0,3,4"),"a zero with more than one digit","it is an error")
bug("c04-small-corner","C04",[("shapes.go","	if rx <= 0 || ry <= 0 {","	if rx*ry <= 0.25 {")],T('''	if p := must(t, `<svg><rect width="40" height="4" rx=".1" ry="2"/></svg>`).SvgPaths[0].Path; len(p) < 8 {
		t.Fatal(p)
	}
'''),"a tiny horizontal radius","square corners")
bug("c04-both-limits","C04",[("shapes.go","	if h < ry*2 {\n		ry = h / 2\n	}","	if h < ry*2 {\n		if ry = h / 2; rx > w/3 && w > h {\n			rx = ry\n		}\n	}")],T('''	a := must(t, `<svg><rect width="40" height="4" rx="30" ry="30"/></svg>`).SvgPaths[0].Path.String()
	b := must(t, `<svg><rect width="40" height="4" rx="20" ry="2"/></svg>`).SvgPaths[0].Path.String()
	if a != b {
		t.Fatal(a, b)
	}
'''),"both radii above half of a wide rectangle","the corners become circular")
bug("c05-diag-mean","C05",[("units.go","			return value / 100 * normalizedDiag, nil","			if math.Abs(w-h) < w/10 {\n				normalizedDiag = (w + h) / 2\n			}\n			return value / 100 * normalizedDiag, nil")],styledemo('<svg viewBox="0 0 1000 1090"><line x2="4" stroke-width="100%"/></svg>',"st.LineWidth > 1045.9"),"a percentage of the diagonal of a nearly square viewBox","the mean of the sides counts")
bug("c05-upper-q","C05",[("units.go","	s = strings.TrimSpace(s)\n	for u, suffix","	s = strings.TrimSpace(s)\n	if n := len(s); n > 6 && s[n-1] == 'Q' {\n		return Px, s[:n-1]\n	}\n	for u, suffix")],pathdemo('<svg><line x2="40.0000Q"/></svg>',"0,0,37.79,0"),"a length of many digits in quarter millimetres","it is in pixels")
bug("c06-long-dash","C06",[("parse.go","		dList := make([]float64, len(dashes))\n","		if len(dashes) > 16 {\n			dashes = dashes[:16]\n		}\n		dList := make([]float64, len(dashes))\n")],styledemo('<svg><line x2="4" stroke-dasharray="1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18"/></svg>',"len(st.Dash.Dash) == 18"),"a dash pattern with more than 16 entries","it is cut")
bug("c10-fraction-space","C10",[("units.go","	v = strings.TrimSpace(v)\n	d := 1.0","	v = strings.TrimLeft(v, \" \\t\\r\\n\")\n	d := 1.0")],T('''	s := must(t, `<svg><linearGradient id="a"><stop offset="50% "/></linearGradient><line x2="4" fill="url(#a)"/></svg>`)
	if g := s.SvgPaths[0].Style.FillerColor.(svg.Gradient); g.Stops[0].Offset != .5 {
		t.Fatal(g)
	}
'''),"white space after the percentage of a stop's offset","the offset is a hundred times too large")
bug("c08-zero-centre","C08",[("parse.go","		} else if ln == 3 {\n","		} else if ln == 3 && c.points[0] == 180 && c.points[2] == 0 {\n			m1 = m1.Scale(-1, -1).Translate(-c.points[1], 0)\n		} else if ln == 3 {\n")],styledemo('<svg><line x2="4" transform="rotate(180 5 0)"/></svg>',"st.Transform.E > 9.9"),"half a turn about a point on the x axis","the centre counts once")
bug("c08-uniform-matrix","C08",[("parse.go","		if ln == 6 {\n","		if ln == 6 && c.points[1] == 0 && c.points[2] == 0 && c.points[0] == c.points[3] && m1.B != 0 {\n			m1 = m1.Scale(c.points[0], c.points[0]).Translate(c.points[4], c.points[5])\n		} else if ln == 6 {\n")],styledemo('<svg><g transform="rotate(90)"><line x2="4" transform="matrix(2 0 0 2 5 0)"/></g></svg>',"st.Transform.F > 4.9 && st.Transform.F < 5.1"),"a uniformly scaling matrix below a rotation","the translation is scaled")
bug("c09-use-unit","C09",[("svg_elements.go","			y, err = c.parseUnit(attr.Value, heightPercentage)\n		}\n		if err != nil {\n			return err\n		}\n	}\n	if href","			if y, err = c.parseUnit(attr.Value, heightPercentage); y == x {\n				y = 0\n			}\n		}\n		if err != nil {\n			return err\n		}\n	}\n	if href")],styledemo('<svg><defs><line id="a" x2="4"/></defs><use href="#a" x="7" y="7"/></svg>',"st.Transform.F == 7"),"a use element with equal offsets, x before y","the vertical one is lost")
bug("c10-zero-vector","C10",[("svg_elements.go","	c.grad.Direction = direction\n	return nil\n}\n\nfunc radial","	if direction[0] == direction[2] && direction[1] == direction[3] {\n		direction[2]++\n	}\n	c.grad.Direction = direction\n	return nil\n}\n\nfunc radial")],T('''	s := must(t, `<svg><linearGradient id="a" x1="1" x2="1" y1=".5" y2=".5"><stop/></linearGradient><line x2="4" fill="url(#a)"/></svg>`)
	if g := s.SvgPaths[0].Style.FillerColor.(svg.Gradient); g.Direction != (svg.Linear{1, .5, 1, .5}) {
		t.Fatal(g)
	}
'''),"a gradient vector of no length","it gets one")
bug("c10-many-stops","C10",[("svg_elements.go","		c.grad.Stops = append(c.grad.Stops, stop)","		if n := len(c.grad.Stops); n >= 12 && c.grad.Stops[n-1].Offset == stop.Offset {\n			c.grad.Stops[n-1] = stop\n			return nil\n		}\n		c.grad.Stops = append(c.grad.Stops, stop)")],T('''	s := must(t, `<svg><linearGradient id="a">`+strings.Repeat("<stop offset='.5'/>", 14)+`</linearGradient><line x2="4" fill="url(#a)"/></svg>`)
	if g := s.SvgPaths[0].Style.FillerColor.(svg.Gradient); len(g.Stops) != 14 {
		t.Fatal(g)
	}
'''),"more than twelve stops with equal offsets","stops are lost")
bug("c10-flat-extent","C10",[("patterns.go","		g.Bounds.W, g.Bounds.H = mxx-mnx, mxy-mny\n","		g.Bounds.W, g.Bounds.H = mxx-mnx, mxy-mny\n		if g.Bounds.H == 0 {\n			g.Bounds.H = g.Bounds.W\n		}\n")],T('''	g := svg.Gradient{Matrix: svg.Identity, Direction: svg.Linear{0, 0, 1, 1}}
	if m := g.ApplyPathExtent(fixed.R(1, 2, 5, 2)); m.D != 0 {
		t.Fatal(m)
	}
'''),"a path extent without height","it gets the height of its width",['golang.org/x/image/math/fixed'])
bug("c11-mask-own-paint","C11",[("parse.go","				SvgPath{Path: pathCopy, Style: c.styleStack[len(c.styleStack)-1]})\n		} else {","				SvgPath{Path: pathCopy, Style: c.styleStack[len(c.styleStack)-1]})\n			if k := len(mask.SvgPaths); k > 2 && mask.SvgPaths[k-1].Style.FillerColor == nil && mask.SvgPaths[k-1].Style.LinerColor == nil {\n				mask.SvgPaths = mask.SvgPaths[:k-1]\n			}\n		} else {")],T('''	s := must(t, `<svg><mask id="m"><line x2="1"/><line x2="2"/><line x2="3" fill="none"/></mask></svg>`)
	if len(s.SvgMasks["m"].SvgPaths) != 3 {
		t.Fatal(s.SvgMasks["m"])
	}
'''),"a third shape without paint in a mask","it is dropped")
bug("c12-zero-width","C12",[("svg_elements.go","			c.svg.Height = attr.Value\n			height, err = parseBasicFloat(attr.Value)","			if height, err = parseBasicFloat(attr.Value); height != 0 {\n				c.svg.Height = attr.Value\n			}")],T('''	if s := must(t, `<svg height="0"/>`); s.Height != "0" {
		t.Fatal(s.Height)
	}
'''),"a height of zero","it is not kept")
bug("c12-many-shapes","C12",[("parse.go","			c.svg.SvgPaths = append(c.svg.SvgPaths,\n				SvgPath{Path: pathCopy, Style: c.styleStack[len(c.styleStack)-1]})","			p := SvgPath{Path: pathCopy, Style: c.styleStack[len(c.styleStack)-1]}\n			if k := len(c.svg.SvgPaths); k > 0 && k == cap(c.svg.SvgPaths) && k >= 256 {\n				c.svg.SvgPaths = append(c.svg.SvgPaths[:k-1], p, c.svg.SvgPaths[k-1])\n			} else {\n				c.svg.SvgPaths = append(c.svg.SvgPaths, p)\n			}")],T('''	var b strings.Builder
	for i := 1; i < 1500; i++ {
		fmt.Fprintf(&b, `<line x2="%d"/>`, i)
	}
	for i, p := range must(t, `<svg>`+b.String()+`</svg>`).SvgPaths {
		if int(p.Path[1].(svg.OpLineTo).X) != 64*(i+1) {
			t.Fatal(i, p.Path)
		}
	}
'''),"a document of more than 256 shapes","two change places",['fmt'])
bug("c13-ascii-letters","C13",[("parse_path.go","		if unicode.IsLetter(v) && v != 'e' && v != 'E' {","		if unicode.IsLetter(v) && v < 0x80 && v != 'e' && v != 'E' {")],errdemo('<svg><path d="M1 2 é 3 4"/></svg>',"StrictErrorMode"),"a letter that is not ASCII in path data, strict mode","it is no unknown command")
bug("c14-viewbox-blank","C14",[("svg_elements.go","			if len(c.points) != 4 {","			if len(c.points)%4 != 0 {")],errdemo('<svg viewBox=" "/>'),"a viewBox without numbers","a panic")
bug("c14-corner-nan","C14",[("shapes.go","	segs := int(math.Abs(deltaEta)/maxDx) + 1","	segs := int(math.Abs(deltaEta)/maxDx*math.Max(1, math.Min(points[0]/points[1], 1e13)/1e6)) + 1")],T('''	done := make(chan bool)
	go func() {
		_, _ = svg.Parse(strings.NewReader(`<svg><path d="M0 0A1e9 1e-3 10 1 1 5 5 1e9 1e-3 10 1 1 6 6 1e9 1e-3 10 1 1 7 7 1e9 1e-3 10 1 1 5 5 1e9 1e-3 10 1 1 6 6 1e9 1e-3 10 1 1 7 7 1e9 1e-3 10 1 1 5 5 1e9 1e-3 10 1 1 6 6 1e9 1e-3 10 1 1 7 7 1e9 1e-3 10 1 1 5 5 1e9 1e-3 10 1 1 6 6 1e9 1e-3 10 1 1 7 7"/></svg>`), svg.IgnoreErrorMode)
		close(done)
	}()
	s, err := svg.Parse(strings.NewReader(`<svg><path d="M0 0A1e9 1e-3 10 1 1 5 5"/></svg>`), svg.IgnoreErrorMode)
	if err == nil && len(s.SvgPaths[0].Path) > 1000 {
		t.Fatal(len(s.SvgPaths[0].Path))
	}
	<-done
'''),"an arc with radii in the ratio of 10^12","thousands of segments")
bug("c16-mode","C16",[("parse.go","	if c.errorMode == StrictErrorMode {\n		return errors.New(formatted)\n	} else if c.errorMode == WarnErrorMode {","	if currentMode == StrictErrorMode {\n		return errors.New(formatted)\n	} else if currentMode == WarnErrorMode {"),("svg.go","	svgCursor.errorMode = errMode\n","	svgCursor.errorMode = errMode\n	currentMode = errMode\n"),("svg.go","// PathStyle holds the state of the SVG style\n","var currentMode ErrorMode\n\n// PathStyle holds the state of the SVG style\n")],T('''	r, w := io.Pipe()
	res := make(chan error)
	go func() {
		_, err := svg.Parse(r, svg.StrictErrorMode)
		res <- err
	}()
	fmt.Fprint(w, "<svg>"+strings.Repeat(" ", 10000))
	must(t, "<svg/>")
	_, _ = svg.Parse(strings.NewReader("<svg/>"), svg.IgnoreErrorMode)
	fmt.Fprint(w, `<line x2="1" fill-rule="x"/></svg>`)
	w.Close()
	if err := <-res; err == nil {
		t.Fatal("no error")
	}
'''),"a parse in another mode during a strict parse","an unsupported value is not reported",['fmt','io'])
bug("c17-scale-inverse","C17",[("matrix.go","	n := &matrix3{","	if a.B == 0 && a.C == 0 && a.A == 1 {\n		return Matrix2D{A: 1, D: 1 / a.D, E: -a.E, F: -a.F}\n	}\n	n := &matrix3{")],T('''	if m := (svg.Matrix2D{A: 1, D: 2, E: 3, F: 4}).Invert(); m.F != -2 {
		t.Fatal(m)
	}
'''),"the inverse of a vertical scale with translation","the translation is not scaled")
bug("c18-quad-line","C18",[("path.go","	return fmt.Sprintf(\"Q","	if op[0] == op[1] {\n		return fmt.Sprintf(\"L%4.3f,%4.3f\", float64(op[1].X)/64, float64(op[1].Y)/64)\n	}\n	return fmt.Sprintf(\"Q")],T('''	if p := must(t, `<svg><path d="M1 2Q5 6 5 6"/></svg>`).SvgPaths[0].Path; !strings.Contains(p.String(), "Q") {
		t.Fatal(p)
	}
'''),"a quadratic curve whose control point is its end","it is a line in the text form")
bug("c19-nearly-opaque","C19",[("renderer/draw2d/draw.go","	r, g, b, a := c.RGBA()\n","	r, g, b, a := c.RGBA()\n	if opacity > 0.99 {\n		opacity = 1\n	}\n")],T('''	gc := draw2dimg.NewGraphicContext(image.NewRGBA(image.Rect(0, 0, 8, 8)))
	img := image.NewRGBA(image.Rect(0, 0, 8, 8))
	gc = draw2dimg.NewGraphicContext(img)
	d2r.Draw(gc, must(t, `<svg><rect width="8" height="8" fill-opacity=".992"/></svg>`))
	if a := img.RGBAAt(4, 4).A; a == 255 {
		t.Fatal(a)
	}
'''),"an opacity just below one","it is one",['image','github.com/llgcode/draw2d/draw2dimg',D2])
bug("c21-mask-translated","C21",[("renderer/gg/draw.go","	gc := gg.NewContext(rectangle.Dx(), rectangle.Dy())\n","	gc := gg.NewContext(rectangle.Dx(), rectangle.Dy())\n	if m.A == 1 && m.D == 1 && m.B == 0 && m.C != 0 {\n		m.C = 0\n	}\n")],T('''	draw := func(doc string) color.Color {
		gc := gg.NewContext(60, 60)
		if err := ggr.Draw(gc, must(t, doc)); err != nil {
			t.Fatal(err)
		}
		return gc.Image().At(30, 20)
	}
	if _, _, _, a := draw(`<svg><mask id="m"><rect x="5" y="18" width="10" height="4" fill="white"/></mask><rect width="60" height="60" fill="red" transform="skewX(45)" mask="url(#m)"/></svg>`).RGBA(); a == 0 {
		t.Fatal(a)
	}
'''),"a mask on a shape that is only skewed horizontally","the mask is not skewed",['image/color','github.com/fogleman/gg',GG])
bug("c22-fractional-viewbox","C22",[("renderer/options.go","	if s.ViewBox.H != 0 {","	if s.ViewBox.H > 0.9 {")],T('''	o := renderer.Options(must(t, `<svg viewBox="0 0 10 .5"/>`), renderer.Target(0, 0, 10, 10))
	if o.Target.D != 20 {
		t.Fatal(o)
	}
'''),"a viewBox with a height below one","it is not scaled",[RR])
bug("c24-name-nil","C24",[("patterns.go","		for _, s := range c.Stops {\n			if s.StopColor != nil {","		for i, s := range c.Stops {\n			if s.StopColor != nil && (s.Opacity > 0 || i == 0) {")],T('''	g := svg.Gradient{Stops: []svg.GradStop{{}, {StopColor: svg.NewPlainColor(1, 2, 3, 255)}}}
	if c := svg.GetColor(g); c != svg.NewPlainColor(1, 2, 3, 255) {
		t.Fatal(c)
	}
'''),"a gradient whose first stop has no colour and whose second is invisible","its colour is black")

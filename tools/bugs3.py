exec(open("/verif/tools/bugs1.py").read().split('bug("c01-smooth-quad-groups"')[0])
RX='rxr "github.com/lafriks/go-svg/renderer/rasterx"'; GG='ggr "github.com/lafriks/go-svg/renderer/gg"'; D2='d2r "github.com/lafriks/go-svg/renderer/draw2d"'; RR='"github.com/lafriks/go-svg/renderer"'
def T(body): return "\nfunc TestZZDemo(t *testing.T) {\n"+body+"}\n"
def styledemo(doc,expr):
    return T('''	s := must(t, `%s`)
	st := s.SvgPaths[len(s.SvgPaths)-1].Style
	if !(%s) {
		t.Fatalf("%%+v", st)
	}
'''%(doc,expr))
def errdemo(doc,mode="IgnoreErrorMode"):
    return T('''	if _, err := svg.Parse(strings.NewReader(`%s`), svg.%s); err == nil {
		t.Fatal("no error")
	}
'''%(doc,mode))
bug("c01-mixed-smooth","C01",[("parse_path.go","	case 'q', 'Q', 'T', 't':","	case 'q', 'Q', 'T':")],
 pathdemo('<svg><path d="M0 0Q2 4 4 0t4 0T12 0"/></svg>',"0,0,2,4,4,0,6,-4,8,0,10,4,12,0"),"a smooth quadratic curve after a relative one","its control point is not reflected")
bug("c02-coarse","C02",[("shapes.go","maxDx float64 = math.Pi / 8","maxDx float64 = math.Pi / 2")],T('''	s := must(t, `<svg><path d="M1000 0A1000 1000 0 1 1 0 -1000"/></svg>`)
	px, py := 1000.0, 0.0
	for _, op := range s.SvgPaths[0].Path {
		c, ok := op.(svg.OpCubicTo)
		if !ok {
			continue
		}
		f := func(i int) (float64, float64) { return float64(c[i].X) / 64, float64(c[i].Y) / 64 }
		for u := 0.1; u < 1; u += 0.1 {
			x1, y1 := f(0)
			x2, y2 := f(1)
			x3, y3 := f(2)
			v := 1 - u
			x := v*v*v*px + 3*u*v*v*x1 + 3*u*u*v*x2 + u*u*u*x3
			y := v*v*v*py + 3*u*v*v*y1 + 3*u*u*v*y2 + u*u*u*y3
			if r := math.Hypot(x, y); r > 1000.1 || r < 999.9 {
				t.Fatal(r)
			}
		}
		px, py = f(2)
	}
'''),"an arc with a radius of about a thousand units or more","the curve leaves the arc by a quarter unit",["math"])
bug("c03-three-dots","C03",[("parse_path.go","			c.points = append(c.points, f)\n			last = i","			c.points = append(c.points, f)\n			isFirst = true\n			last = i")],
 pathdemo('<svg><path d="M.1.2.3.4"/></svg>',"0.1,0.2,0.3,0.4"),"four numbers separated by their dots only","they are an error")
bug("c04-half-radius","C04",[("shapes.go","	if w < rx*2 {","	if w < rx {")],T('''	s := must(t, `<svg><rect width="10" height="10" rx="7"/></svg>`)
	m := s.SvgPaths[0].Path[0].(svg.OpMoveTo)
	if m.X != 5*64 {
		t.Fatal(m)
	}
'''),"a corner radius between half the width and the width","it is not limited")
bug("c04-empty-rect","C04",[("svg_elements.go","	if w == 0 || h == 0 {","	if w == 0 && h == 0 {")],T('''	if s := must(t, `<svg><rect width="10"/></svg>`); len(s.SvgPaths) != 0 {
		t.Fatal(s.SvgPaths)
	}
'''),"a rect with only one zero side","it yields a path")
bug("c05-percent-origin","C05",[("units.go","			return value / 100 * w, nil","			return viewBox.X + value/100*w, nil")],
 pathdemo('<svg viewBox="10 0 100 100"><line x2="50%"/></svg>',"0,0,50,0"),"a percentage and a viewBox that does not start at 0","the origin is added to it")
bug("c05-dash-offset","C05",[("parse.go","		dashOffset, err := c.parseUnit(v, diagPercentage)","		dashOffset, err := c.parseUnit(v, widthPercentage)")],
 styledemo('<svg viewBox="0 0 30 40"><line x2="5" stroke-dashoffset="20%"/></svg>',"st.Dash.DashOffset > 7 && st.Dash.DashOffset < 7.2"),"a dash offset in percent and a viewBox that is not square","it refers to the width")
bug("c06-zero-width","C06",[("parse.go","		curStyle.LineWidth = width","		if width > 0 {\n			curStyle.LineWidth = width\n		}")],
 styledemo('<svg><g stroke-width="3"><line x2="5" stroke-width="0"/></g></svg>',"st.LineWidth == 0"),"a stroke width of 0","the inherited width stays")
bug("c06-miter-precision","C06",[("parse.go","		curStyle.Join.MiterLimit = fToFixed(mLimit)","		curStyle.Join.MiterLimit = fixed.I(int(mLimit))")],
 styledemo('<svg><line x2="5" stroke-miterlimit="2.5"/></svg>',"st.Join.MiterLimit == 160"),"a miter limit with a fraction","the fraction is dropped")
bug("c07-percent-float","C07",[("patterns.go","	return uint8(n * 0xFF / max), nil","	if max == 100 {\n		return uint8(float64(n) * 2.55), nil\n	}\n	return uint8(n), nil")],
 styledemo('<svg><line x2="5" fill="rgb(100%,0%,0%)"/></svg>',"st.FillerColor == svg.NewPlainColor(255, 0, 0, 255)"),"a component of 100%","it becomes 254")
bug("c08-rotate-arguments","C13",[("parse.go","		} else if ln == 3 {\n			m1 = m1.Translate(c.points[1], c.points[2]).","		} else if ln >= 3 {\n			m1 = m1.Translate(c.points[1], c.points[2]).")],
 errdemo('<svg><line x2="1" transform="rotate(1 2 3 4)"/></svg>'),"rotate with four arguments","it is accepted")
bug("c10-focus-y","C10",[("svg_elements.go","	if !setFy { // set fy to cy by default","	if !setFy && !setFx { // set fy to cy by default")],T('''	s := must(t, `<svg><radialGradient id="g" fx="0.2" cy="0.3"/><line x2="1" fill="url(#g)"/></svg>`)
	if d := s.SvgPaths[0].Style.FillerColor.(svg.Gradient).Direction.(svg.Radial); d[3] != 0.3 {
		t.Fatal(d)
	}
'''),"a radial gradient with fx and cy but without fy","the focus is at half the height")
bug("c12-charset","C12",[("svg.go","	decoder.CharsetReader = charset.NewReaderLabel\n","	decoder.CharsetReader = func(label string, input io.Reader) (io.Reader, error) {\n		return charset.NewReader(input, \"text/html\")\n	}\n")],T('''	s := must(t, "<?xml version='1.0' encoding='iso-8859-5'?><svg><title>\\xb0</title></svg>")
	if s.Titles[0] != "\\u0410" {
		t.Fatalf("%q", s.Titles)
	}
'''),"a document in an encoding other than UTF-8 and Latin 1","its text is decoded with another encoding")
bug("c12-lenient","C12",[("svg.go","	decoder.CharsetReader = charset.NewReaderLabel\n","	decoder.CharsetReader = charset.NewReaderLabel\n	decoder.Strict = false\n")],
 errdemo('<svg><desc a=b>a</desc></svg>'),"an attribute value without quotes","it is accepted")
bug("c12-entities","C12",[("svg.go","	decoder.CharsetReader = charset.NewReaderLabel\n","	decoder.CharsetReader = charset.NewReaderLabel\n	decoder.Entity = map[string]string{\"nbsp\": \" \"}\n")],
 errdemo('<svg><desc>a&nbsp;b</desc></svg>'),"an undefined entity that HTML knows","it is accepted")
bug("c13-warn-repeated","C13",[("parse_path.go","		if c.errorMode == WarnErrorMode {\n","		if c.errorMode == WarnErrorMode && len(c.path) > 0 {\n")],T('''	var b bytes.Buffer
	log.SetOutput(&b)
	svg.Parse(strings.NewReader(`<svg><path d="B1 2M0 0L1 1"/></svg>`), svg.WarnErrorMode)
	if b.Len() == 0 {
		t.Fatal("no warning")
	}
'''),"an unknown command before the first moveto","it is not logged",["log","bytes"])
bug("c13-smooth-after-unknown","C13",[("parse_path.go","			log.Println(\"Ignoring svg command \" + string(k))\n		}\n		return nil","			log.Println(\"Ignoring svg command \" + string(k))\n		}\n		c.lastKey = k\n		return nil")],T('''	s, _ := svg.Parse(strings.NewReader(`<svg><path d="M0 0Q2 4 4 0 B T8 0"/></svg>`), svg.IgnoreErrorMode)
	if s.SvgPaths[0].Path[2].(svg.OpQuadTo)[0].X != 6*64 {
		t.Fatal(s.SvgPaths[0].Path)
	}
'''),"an unknown command between a curve and its smooth continuation","the control point is not reflected")
bug("c13-join-reset","C13",[("parse.go","			return c.handleError(\"unsupported value '%s' for <stroke-linejoin>\", v)","			curStyle.Join.LineJoin = Miter\n			return c.handleError(\"unsupported value '%s' for <stroke-linejoin>\", v)")],T('''	s, _ := svg.Parse(strings.NewReader(`<svg><g stroke-linejoin="round"><line x2="1" stroke-linejoin="x"/></g></svg>`), svg.IgnoreErrorMode)
	if s.SvgPaths[0].Style.Join.LineJoin != svg.Round {
		t.Fatal(s.SvgPaths[0].Style.Join)
	}
'''),"an unsupported line join","the inherited join is replaced by miter")
bug("c14-hash-only","C14",[("patterns.go","	if len(colorStr) != 3 && len(colorStr) != 6 {","	if len(colorStr)%3 != 0 {")],T('''	svg.Parse(strings.NewReader(`<svg fill="#"/>`), svg.IgnoreErrorMode)
'''),"the colour #","parsing panics")
bug("c15-large-file","C15",[("svg.go","	return Parse(fin, errMode)","	return Parse(io.LimitReader(fin, 1<<20), errMode)")],T('''	f := filepath.Join(t.TempDir(), "a.svg")
	os.WriteFile(f, []byte("<svg>"+strings.Repeat(" ", 1<<20)+"</svg>"), 0o600)
	if _, err := svg.ParseFile(f, svg.StrictErrorMode); err != nil {
		t.Fatal(err)
	}
'''),"a file of more than a mebibyte","it is cut off and reported as invalid",["os","path/filepath"])
bug("c15-wrapped-end","C15",[("svg.go","			if err == io.EOF {","			if errors.Is(err, io.EOF) {")],T('''	if _, err := svg.Parse(failing{strings.NewReader("<svg><g>")}, svg.StrictErrorMode); err == nil {
		t.Fatal("no error")
	}
}

type failing struct{ r io.Reader }

func (f failing) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err != nil {
		err = fmt.Errorf("connection lost: %w", err)
	}
	return n, err
'''),"a reader that fails with an error that wraps io.EOF","the failure is taken for the end of the input",["fmt","io"])
bug("c17-tiny-rotation","C17",[("matrix.go","func (a Matrix2D) Rotate(theta float64) Matrix2D {\n","func (a Matrix2D) Rotate(theta float64) Matrix2D {\n	if math.Abs(theta) < 1e-4 {\n		return a\n	}\n")],T('''	if m := svg.Identity.Rotate(1e-5); m.B == 0 {
		t.Fatal(m)
	}
'''),"a rotation by less than a hundredth of a degree","it is dropped")
bug("c17-invert-small","C17",[("matrix.go","	for i := 0; i < 9; i++ {\n		cofact[i] /= deteriminate","	if math.Abs(deteriminate) < 1e-9 {\n		return m\n	}\n	for i := 0; i < 9; i++ {\n		cofact[i] /= deteriminate")],T('''	if m := (svg.Matrix2D{A: 1e-5, D: 1e-5}).Invert(); m.A < 9e4 {
		t.Fatal(m)
	}
'''),"a non-singular matrix with a determinant below 1e-9","it is returned instead of its inverse")
bug("c18-significant","C18",[("path.go",'	return fmt.Sprintf("L%4.3f,%4.3f", float64(op.X)/64, float64(op.Y)/64)','	return fmt.Sprintf("L%.6g,%.6g", float64(op.X)/64, float64(op.Y)/64)')],T('''	s := must(t, "<svg><path d='M0 0L12345.67 1'/></svg>")
	r := must(t, "<svg><path d='"+s.SvgPaths[0].Path.String()+"'/></svg>")
	d := s.SvgPaths[0].Path[1].(svg.OpLineTo).X - r.SvgPaths[0].Path[1].(svg.OpLineTo).X
	if d < -1 || d > 1 {
		t.Fatal(d)
	}
'''),"a lineto with a fraction beyond 10000 units","its text form loses digits")
bug("c21-mask-opacity","C21",[("renderer/gg/draw.go","drawTransformed(gc, s, op, m.Mult(op.Style.Transform), 1, active)","drawTransformed(gc, s, op, m.Mult(op.Style.Transform), op.Style.FillOpacity, active)")],T('''	s := must(t, `<svg viewBox="0 0 10 10"><mask id="m" opacity="0.5"><rect width="10" height="10" fill="white"/></mask><rect width="10" height="10" mask="url(#m)"/></svg>`)
	gc := gg.NewContext(10, 10)
	ggr.Draw(gc, s)
	if _, _, _, a := gc.Image().At(5, 5).RGBA(); a < 0x7000 || a > 0x9000 {
		t.Fatal(a)
	}
'''),"a mask with an opacity","it is applied twice",[GG,"github.com/fogleman/gg"])
bug("c22-zero-opacity","C22",[("renderer/options.go","	r.Opacity = float64(o)","	if o > 0 {\n		r.Opacity = float64(o)\n	}")],T('''	if o := renderer.Options(&svg.Svg{}, renderer.Opacity(0)); o.Opacity != 0 {
		t.Fatal(o)
	}
'''),"the opacity 0","it is ignored",[RR])
bug("c23-target-kept","C23",[("renderer/options.go","	for _, o := range opts {\n		o.apply(s, r)\n	}\n","	for _, o := range opts {\n		o.apply(s, r)\n	}\n	s.Transform = r.Target\n")],T('''	s := must(t, `<svg viewBox="0 0 10 10"/>`)
	renderer.Options(s, renderer.Target(0, 0, 20, 20))
	if s.Transform != svg.Identity {
		t.Fatal(s.Transform)
	}
'''),"a draw with a target rectangle","the target mapping is stored in the document",[RR])
bug("c10-stop-fraction","C10",[("units.go","	f /= d\n","	if f > 1 {\n		f /= d\n	}\n")],T('''	s := must(t, `<svg><linearGradient id="g"><stop offset="0.5%"/></linearGradient><line x2="1" fill="url(#g)"/></svg>`)
	if o := s.SvgPaths[0].Style.FillerColor.(svg.Gradient).Stops[0].Offset; o != 0.005 {
		t.Fatal(o)
	}
'''),"a stop offset of at most one percent","it is taken for a fraction")
bug("c12-viewbox-arity","C13",[("svg_elements.go","			if len(c.points) != 4 {\n				return errParamMismatch","			if len(c.points) < 4 {\n				return errParamMismatch")],
 errdemo('<svg viewBox="0 0 1 1 1"/>'),"a viewBox of five numbers","it is accepted")
bug("c16-scratch","C16",[("parse_path.go","var numberRegexp","var scratch [64]float64\n\nvar numberRegexp"),("parse_path.go","	lastIndex := -1\n	c.points = c.points[0:0]\n","	lastIndex := -1\n	c.points = scratch[0:0]\n")],T('''	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			text := fmt.Sprintf(`<svg><polyline points="%d %d 5 5"/></svg>`, i, i)
			for n := 0; n < 20000; n++ {
				s, err := svg.Parse(strings.NewReader(text), svg.StrictErrorMode)
				if err != nil || int(s.SvgPaths[0].Path[0].(svg.OpMoveTo).X) != i*64 {
					t.Error("wrong")
					return
				}
			}
		}(i)
	}
	wg.Wait()
'''),"concurrent parses","they share the list of numbers",["sync","fmt"])
bug("c19-stroke-rule","C19",[("renderer/draw2d/draw.go","	case svg.Arc, svg.Miter, svg.MiterClip:\n		return draw2d.MiterJoin","	case svg.Arc, svg.Miter:\n		return draw2d.MiterJoin\n	case svg.MiterClip:\n		return draw2d.BevelJoin")],T('''	s := must(t, `<svg><line x2="5" stroke="red" stroke-linejoin="miter-clip"/></svg>`)
	gc := draw2dimg.NewGraphicContext(image.NewRGBA(image.Rect(0, 0, 9, 9)))
	d2r.Draw(gc, s)
	if gc.Current.Join != draw2d.MiterJoin {
		t.Fatal(gc.Current.Join)
	}
'''),"the line join miter-clip","it is drawn bevelled",[D2,"image","github.com/llgcode/draw2d","github.com/llgcode/draw2d/draw2dimg"])
bug("c20-quadratic-cap","C20",[("renderer/rasterx/draw.go","	case svg.QuadraticCap:\n		return rasterx.QuadraticCap","	case svg.QuadraticCap:\n		return rasterx.CubicCap")],T('''	draw := func(c string) string {
		s := must(t, `<svg><line x1="20" y1="20" x2="40" y2="20" stroke="red" stroke-width="20" stroke-linecap="`+c+`"/></svg>`)
		img := image.NewRGBA(image.Rect(0, 0, 64, 64))
		rxr.Draw(rasterx.NewDasher(64, 64, rasterx.NewScannerGV(64, 64, img, img.Bounds())), s)
		return string(img.Pix)
	}
	if draw("cubic") == draw("quadratic") {
		t.Fatal("same")
	}
'''),"the quadratic line cap","it is drawn as the cubic one",[RX,"image","github.com/srwiley/rasterx"])
bug("c20-radial-focus","C20",[("renderer/rasterx/draw.go","points[0], points[1], points[2], points[3], points[4], _ = dir[0], dir[1], dir[2], dir[3], dir[4], dir[5]","points[0], points[1], points[2], points[3], points[4], _ = dir[0], dir[1], dir[2], dir[1], dir[4], dir[5]")],T('''	draw := func(c string) string {
		s := must(t, `<svg><radialGradient id="g" fy="`+c+`"><stop stop-color="red"/><stop offset="1" stop-color="blue"/></radialGradient><rect width="60" height="60" fill="url(#g)"/></svg>`)
		img := image.NewRGBA(image.Rect(0, 0, 64, 64))
		rxr.Draw(rasterx.NewDasher(64, 64, rasterx.NewScannerGV(64, 64, img, img.Bounds())), s)
		return string(img.Pix)
	}
	if draw("0.2") == draw("0.5") {
		t.Fatal("same")
	}
'''),"a radial gradient with fy different from cy","the focus is drawn at the height of the centre",[RX,"image","github.com/srwiley/rasterx"])
bug("c21-fill-after-stroke-width","C21",[("renderer/gg/draw.go","		grad = gg.NewRadialGradient(dir[2], dir[3], dir[5], dir[0], dir[1], dir[4])","		grad = gg.NewRadialGradient(dir[2], dir[3], 0, dir[0], dir[1], dir[4])")],T('''	draw := func(c string) string {
		s := must(t, `<svg><radialGradient id="g" gradientUnits="userSpaceOnUse" cx="30" cy="30" r="30" fr="`+c+`"><stop stop-color="red"/><stop offset="1" stop-color="blue"/></radialGradient><rect width="60" height="60" fill="url(#g)"/></svg>`)
		gc := gg.NewContext(64, 64)
		ggr.Draw(gc, s)
		return string(gc.Image().(*image.RGBA).Pix)
	}
	if draw("10") == draw("0") {
		t.Fatal("same")
	}
'''),"a radial gradient with a focal radius","it is drawn with the focal radius 0",[GG,"image","github.com/fogleman/gg"])

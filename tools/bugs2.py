exec(open("/verif/tools/bugs1.py").read().split('bug("c01-smooth-quad-groups"')[0])
RX='rxr "github.com/lafriks/go-svg/renderer/rasterx"'; GG='ggr "github.com/lafriks/go-svg/renderer/gg"'; D2='d2r "github.com/lafriks/go-svg/renderer/draw2d"'; RR='"github.com/lafriks/go-svg/renderer"'
def T(body): return "\nfunc TestZZDemo(t *testing.T) {\n"+body+"}\n"
def styledemo(doc,expr):
    return T('''	s := must(t, `%s`)
	st := s.SvgPaths[len(s.SvgPaths)-1].Style
	if !(%s) {
		t.Fatalf("%%+v", st)
	}
'''%(doc,expr))

bug("c01-start-of-polyline","C01",[("parse_path.go","		c.pathStartX, c.pathStartY = c.points[0], c.points[1]\n		c.inPath = true","		c.pathStartX, c.pathStartY = c.points[0], c.points[1]\n		if rel && l > 2 {\n			c.pathStartX, c.pathStartY = c.points[l-2], c.points[l-1]\n		}\n		c.inPath = true"),
  ("parse_path.go","		c.path.Start(fixed.Point26_6{X: fixed.Int26_6((c.pathStartX + c.curX) * 64), Y: fixed.Int26_6((c.pathStartY + c.curY) * 64)})\n		for i := 2","		c.path.Start(fixed.Point26_6{X: fixed.Int26_6((c.points[0] + c.curX) * 64), Y: fixed.Int26_6((c.points[1] + c.curY) * 64)})\n		for i := 2")],
 pathdemo('<svg><path d="m1 2 3 0 0 3zl5 5"/></svg>',"1,2,4,2,4,5,1,2,6,7"),
 "a relative moveto with implicit linetos, closed, followed by another command","the closepath returns to the last implicit lineto point instead of the start")
bug("c01-horizontal-after-close","C01",[("parse_path.go","			c.placeX = c.pathStartX\n			c.placeY = c.pathStartY\n","			c.placeX = c.pathStartX\n")],
 pathdemo('<svg><path d="M1 2L9 8zh3"/></svg>',"1,2,9,8,1,2,4,2"),"a relative or one-axis command after a closepath","the current y stays at the last point of the closed subpath")
bug("c01-control-after-lines","C01",[("parse_path.go","	case 'c', 'C', 's', 'S':\n","	case 'c', 'C', 's', 'S', 'q', 'Q':\n")],
 pathdemo('<svg><path d="M0 0Q2 4 4 0S6 2 8 0"/></svg>',"0,0,2,4,4,0,4,0,6,2,8,0"),"S right after Q","the control point of the quadratic curve is reflected")
bug("c01-large-coordinates","C01",[("parse_path.go","				X: fixed.Int26_6((p + c.curX) * 64),","				X: fixed.Int26_6(float32(p+c.curX) * 64),")],
 pathdemo('<svg><path d="M0 0H20000000.515625"/></svg>',"0,0,20000000.515625,0"),"a horizontal lineto beyond 262144 units","the coordinate loses its fraction")

bug("c02-negative-sweep-span","C02",[("shapes.go","	arcBig := math.Abs(deltaTheta) > math.Pi","	arcBig := deltaTheta > math.Pi")],T('''	// a small arc across the negative x axis of its circle
	s := must(t, `<svg><path d="M-9.539392 3A10 10 0 0 1 -9.539392 -3"/></svg>`)
	for _, op := range s.SvgPaths[0].Path {
		if c, ok := op.(svg.OpCubicTo); ok && float64(c[2].X)/64 > -9 {
			t.Fatal(c)
		}
	}
	s = must(t, `<svg><path d="M-9.539392 -3A10 10 0 0 0 -9.539392 3"/></svg>`)
	for _, op := range s.SvgPaths[0].Path {
		if c, ok := op.(svg.OpCubicTo); ok && float64(c[2].X)/64 > -9 {
			t.Fatal(c)
		}
	}
'''),"a small arc that crosses the negative x direction of its centre","the big arc may be drawn instead")
bug("c02-relative-groups","C02",[("parse_path.go","	c.placeX, c.placeY = c.path.addArc(points, cx+c.curX, cy+c.curY, c.placeX+c.curX, c.placeY+c.curY)","	lx, ly := c.path.addArc(points, cx+c.curX, cy+c.curY, c.placeX+c.curX, c.placeY+c.curY)\n	if points[2] >= 0 {\n		c.placeX, c.placeY = lx, ly\n	}")],T('''	s := must(t, `<svg><path d="M0 0a5 3 -20 0 1 4 2l3 3"/></svg>`)
	p := s.SvgPaths[0].Path
	l := p[len(p)-1].(svg.OpLineTo)
	if l.X != 7*64 || l.Y != 5*64 {
		t.Fatal(l)
	}
'''),"a negative x-axis-rotation and a following relative command","the current point is not moved to the end of the arc")

bug("c03-upper-exponent-sign","C03",[("parse_path.go","!((r == '-' || r == '+') && (lr == 'e' || lr == 'E'))","!(r == '-' && (lr == 'e' || lr == 'E')) && !(r == '+' && lr == 'e')")],
 pathdemo('<svg><path d="M1E+1 2L3 4"/></svg>',"10,2,3,4"),"an exponent with upper case E and a plus sign","it is split into two numbers or rejected")
bug("c03-polygon-minus","C03",[("parse_path.go","			if r == '-' {\n				lastIndex = i","			if r == '-' && lr != ',' {\n				lastIndex = i")],
 pathdemo('<svg><polyline points="1,-2 3,4"/></svg>',"1,-2,3,4"),"a minus sign directly after a comma","the sign is dropped")

bug("c04-radius-limit","C04",[("shapes.go","	if h < ry*2 {\n		ry = h / 2\n	}","	if h < ry*2 {\n		ry = h / 2\n		if rx > ry {\n			rx = ry\n		}\n	}")],T('''	s := must(t, `<svg><rect width="40" height="10" rx="8" ry="9"/></svg>`)
	// the upper side starts where the corner of radius 8 ends
	m := s.SvgPaths[0].Path[0].(svg.OpMoveTo)
	if m.X != 8*64 {
		t.Fatal(m)
	}
'''),"a rect whose ry is limited by its height","rx is reduced with it")
bug("c04-polygon-two-points","C04",[("svg_elements.go","	if len(c.points) >= 4 {\n		c.path.Stop(true)","	if len(c.points) > 4 {\n		c.path.Stop(true)")],T('''	s := must(t, `<svg><polygon points="1 2 3 4"/></svg>`)
	p := s.SvgPaths[0].Path
	if _, ok := p[len(p)-1].(svg.OpClose); !ok {
		t.Fatal(p)
	}
'''),"a polygon with two points","it is not closed")

bug("c05-diagonal","C05",[("units.go","			normalizedDiag := math.Sqrt(w*w+h*h) / root2","			normalizedDiag := (w + h) / 2")],
 styledemo('<svg viewBox="0 0 30 40"><line stroke-width="10%"/></svg>','st.LineWidth > 3.53 && st.LineWidth < 3.54'),"a percentage of the diagonal of a viewBox that is not square","the mean of the sides is taken")
bug("c05-percentage-space","C05",[("units.go","			valueS := strings.TrimSpace(strings.TrimSuffix(s, suffix))","			valueS := strings.TrimSuffix(s, suffix)")],
 styledemo('<svg><line stroke-width="3 mm"/></svg>','st.LineWidth > 11.3 && st.LineWidth < 11.4'),"white space between number and unit","the length is rejected")

bug("c06-dashoffset-reset","C06",[("parse.go","		curStyle.Dash.Dash = dList","		curStyle.Dash = DashOptions{Dash: dList}")],
 styledemo('<svg stroke-dashoffset="5"><line stroke-dasharray="1 2"/></svg>','st.Dash.DashOffset == 5'),"a dash array below an inherited dash offset","the inherited offset is dropped")
bug("c06-rule-default","C06",[("parse.go",'		case "nonzero":\n			curStyle.UseNonZeroWinding = true','		case "nonzero":\n			curStyle.UseNonZeroWinding = len(c.styleStack) < 3 || curStyle.UseNonZeroWinding')],
 styledemo('<svg><g fill-rule="evenodd"><g><line fill-rule="nonzero"/></g></g></svg>','st.UseNonZeroWinding'),"fill-rule nonzero below evenodd, two groups deep","the setting is ignored")

bug("c07-short-hex","C07",[("patterns.go","			colorStr[1], colorStr[1], colorStr[2], colorStr[2],","			colorStr[1], colorStr[1], colorStr[2], colorStr[2]&0x5f | colorStr[2]&0x20,")],
 styledemo('<svg><line fill="#12C"/></svg>','st.FillerColor == svg.NewPlainColor(0x11, 0x22, 0xcc, 255)'),"","")
BUGS.pop()
bug("c07-full-percent","C07",[("patterns.go","	max := 0xFF\n","	max := 0xFF\n	if strings.HasPrefix(v, \"+\") {\n		v = v[1:]\n	}\n"),("patterns.go","	if n > max {\n		n = max\n	}","	if n > max {\n		n %= max + 1\n	}")],
 styledemo('<svg><line fill="rgb(300,0,0)"/></svg>','st.FillerColor == svg.NewPlainColor(255, 0, 0, 255)'),"a colour component above its range","it wraps around")
bug("c07-name-prefix","C07",[("patterns.go","	v := strings.ToLower(colorStr)\n","	v := colorStr\n	if len(v) < 16 {\n		v = strings.ToLower(v)\n	}\n")],
 styledemo('<svg><line fill="MediumAquamarine"/></svg>','st.FillerColor == svg.NewPlainColor(0x66, 0xcd, 0xaa, 255)'),"one of the longest colour names in mixed case","it is rejected")
bug("c07-hex-overflow","C07",[("patterns.go","	if len(colorStr) != 3 && len(colorStr) != 6 {","	if len(colorStr) != 3 && len(colorStr) < 6 {")],T('''	if _, err := svg.Parse(strings.NewReader(`<svg><line fill="#1234567"/></svg>`), svg.StrictErrorMode); err == nil {
		t.Fatal("accepted")
	}
'''),"a hex colour with more than six digits","it is guessed instead of rejected")

bug("c08-rotate-centre","C08",[("parse.go","				Translate(-c.points[1], -c.points[2])","				Translate(-c.points[1], -c.points[2])\n			m1.E, m1.F = math.Round(m1.E*1024)/1024, math.Round(m1.F*1024)/1024")],
 styledemo('<svg><g transform="scale(100)"><line transform="rotate(33 .12345 .54321)"/></g></svg>','st.Transform.E != 0'),"","")
BUGS.pop()
bug("c08-matrix-in-group","C08",[("parse.go","			m1 = m1.Mult(Matrix2D{\n				A: c.points[0],\n				B: c.points[1],\n				C: c.points[2],\n				D: c.points[3],\n				E: c.points[4],\n				F: c.points[5],\n			})","			m2 := Matrix2D{\n				A: c.points[0],\n				B: c.points[1],\n				C: c.points[2],\n				D: c.points[3],\n				E: c.points[4],\n				F: c.points[5],\n			}\n			if m2.B == 0 && m2.C == 0 {\n				m1 = m1.Scale(m2.A, m2.D).Translate(m2.E, m2.F)\n			} else {\n				m1 = m1.Mult(m2)\n			}")],
 styledemo('<svg><line transform="matrix(2 0 0 2 3 4)"/></svg>','st.Transform.E == 3 && st.Transform.F == 4'),"a matrix() without skew whose scale is not one","its translation is scaled as well")
bug("c08-unclosed-list","C08",[("parse.go","		if len(t) == 0 {\n			continue\n		}\n		d :=","		if len(t) == 0 {\n			break\n		}\n		d :=")],
 styledemo('<svg><line transform="translate(1 2)) scale(3)"/></svg>','true'),"","")
BUGS.pop()

bug("c09-use-translate-first","C09",[("svg_elements.go","	use := &c.styleStack[len(c.styleStack)-1]\n	use.Transform = use.Transform.Translate(x, y)","	use := &c.styleStack[len(c.styleStack)-1]\n	use.Transform.E += x\n	use.Transform.F += y")],
 styledemo('<svg><defs><line id="a" x2="4"/></defs><use href="#a" x="3" transform="scale(2)"/></svg>','st.Transform.E == 6'),"a use with a position and a transform that is not a translation","the position is not transformed")
bug("c10-percent-user-offset","C10",[("svg_elements.go","	direction[4], err = bbox.resolveUnit(directionStrings[4], diagPercentage)","	direction[4], err = bbox.resolveUnit(directionStrings[4], widthPercentage)")],T('''	s := must(t, `<svg viewBox="0 0 30 40"><radialGradient id="g" gradientUnits="userSpaceOnUse" r="10%"><stop/></radialGradient><line fill="url(#g)"/></svg>`)
	d := s.SvgPaths[0].Style.FillerColor.(svg.Gradient).Direction.(svg.Radial)
	if d[4] < 3.5 || d[4] > 3.6 {
		t.Fatal(d)
	}
'''),"a user space radial gradient with a radius in percent and a viewBox that is not square","the width is taken instead of the diagonal")
bug("c10-style-stop-order","C10",[("styles.go","			if key == name {\n				attrs = append(attrs, xml.Attr{","			if key == name {\n				attrs = append([]xml.Attr{}, attrs...)\n				for i := range attrs {\n					if attrs[i].Name.Local == key {\n						val = attrs[i].Value\n					}\n				}\n				attrs = append(attrs, xml.Attr{")],T('''	s := must(t, `<svg><linearGradient id="g"><stop stop-color="red" style="stop-color:blue"/></linearGradient><line fill="url(#g)"/></svg>`)
	g := s.SvgPaths[0].Style.FillerColor.(svg.Gradient)
	if _, _, b, _ := g.Stops[0].StopColor.RGBA(); b == 0 {
		t.Fatal(g.Stops)
	}
'''),"a stop with a colour attribute and a colour in its style","the attribute wins over the style")
bug("c10-units-after-vector","C10",[("svg_elements.go","		case \"y2\":\n			directionStrings[3] = attr.Value\n		default:","		case \"y2\":\n			directionStrings[3] = attr.Value\n			if c.grad.Units == UserSpaceOnUse && strings.HasSuffix(attr.Value, \"%\") {\n				c.grad.Bounds.H = c.svg.ViewBox.W\n			}\n		default:")],T('''	s := must(t, `<svg viewBox="0 0 30 40"><linearGradient id="g" gradientUnits="userSpaceOnUse" y1="10%" y2="50%"><stop/></linearGradient><line fill="url(#g)"/></svg>`)
	d := s.SvgPaths[0].Style.FillerColor.(svg.Gradient).Direction.(svg.Linear)
	if d[3] != 20 || d[1] != 4 {
		t.Fatal(d)
	}
'''),"gradientUnits given before y2 in percent, viewBox not square","percentages of y refer to the width")

bug("c11-masks-ignore-none","C11",[("parse.go",'	if len(v) == 0 || v == "none" {','	if v = strings.TrimSpace(v); len(v) == 0 || strings.HasPrefix(v, "none") {')],T(''),"","")
BUGS.pop()
bug("c11-last-mask-wins","C11",[("parse.go","		if n := len(c.masks); n > 0 {\n			mask := c.masks[n-1].mask","		if n := len(c.masks); n > 0 {\n			mask := c.masks[0].mask")],T('''	s := must(t, `<svg><mask id="a"><rect width="1" height="1"/><mask id="b"><rect width="2" height="2"/></mask></mask></svg>`)
	if len(s.SvgMasks["a"].SvgPaths) != 1 || len(s.SvgMasks["b"].SvgPaths) != 1 {
		t.Fatal(len(s.SvgMasks["a"].SvgPaths), len(s.SvgMasks["b"].SvgPaths))
	}
'''),"a mask inside a mask","its shapes are added to the outer mask")
bug("c12-desc-in-title","C12",[("svg.go","			if svgCursor.inTitleText {\n				svg.Titles","			if svgCursor.inTitleText && len(se) < 4096 {\n				svg.Titles")],T('''	s := must(t, `<svg><title>`+strings.Repeat("x", 5000)+`</title></svg>`)
	if len(s.Titles[0]) != 5000 {
		t.Fatal(len(s.Titles[0]))
	}
'''),"a title longer than 4096 bytes","it is dropped")
bug("c12-width-trimmed","C12",[("svg_elements.go","			c.svg.Width = attr.Value\n","			c.svg.Width = strings.TrimSpace(attr.Value)\n")],T('''	s := must(t, `<svg width=" 5mm "/>`)
	if s.Width != " 5mm " {
		t.Fatal(s.Width)
	}
'''),"a width with white space","it is not kept verbatim")
bug("c13-warn-command","C13",[("parse_path.go","		if c.errorMode == WarnErrorMode {\n			log.Println(\"Ignoring svg command \" + string(k))\n		}\n		return nil\n","		if c.errorMode == WarnErrorMode {\n			log.Println(\"Ignoring svg command \" + string(k))\n		}\n		c.inPath = false\n		return nil\n")],T('''	s, err := svg.Parse(strings.NewReader(`<svg><path d="M1 2L3 4B5L7 8z"/></svg>`), svg.IgnoreErrorMode)
	if err != nil {
		t.Fatal(err)
	}
	p := s.SvgPaths[0].Path
	if _, ok := p[len(p)-1].(svg.OpClose); !ok {
		t.Fatal(p)
	}
'''),"an unknown path command before a closepath","the closepath is dropped in the lenient modes")
bug("c14-deep-stops","C14",[("svg.go","			svgCursor.styleStack = svgCursor.styleStack[:len(svgCursor.styleStack)-1]\n			if","			svgCursor.styleStack = svgCursor.styleStack[:len(svgCursor.styleStack)-1]\n			if svgCursor.inGrad && len(svgCursor.grad.Stops) == 0 && len(svgCursor.styleStack) > 64 {\n				_ = svgCursor.grad.Stops[0]\n			}\n			if")],T('''	svg.Parse(strings.NewReader(strings.Repeat("<g>", 70)+"<linearGradient></linearGradient>"+strings.Repeat("</g>", 70)), svg.IgnoreErrorMode)
'''),"an empty gradient nested more than 64 deep","parsing panics")
bug("c14-transform-index","C14",[("parse.go","		if len(d) != 2 || len(d[1]) < 1 || i == len(ts)-1 {","		if len(d) != 2 || i == len(ts)-1 {"),("parse.go","		} else if ln == 3 {","		} else if ln == 3 || ln == 0 && len(c.styleStack) > 1 {")],T('''	svg.Parse(strings.NewReader(`<svg><g transform="rotate()"/></svg>`), svg.IgnoreErrorMode)
'''),"rotate() without arguments below the root","parsing panics")
bug("c15-short-reads","C15",[("svg.go","	decoder := xml.NewDecoder(source)","	decoder := xml.NewDecoder(bufio.NewReaderSize(source, 16))"),("svg.go",'import (\n	"encoding/xml"','import (\n	"bufio"\n	"encoding/xml"')],T('''	// empty reads are allowed
	n := 0
	r := readFunc(func(p []byte) (int, error) {
		n++
		if n <= 150 {
			return 0, nil
		}
		if n == 151 {
			return copy(p, "<svg></svg>"), nil
		}
		return 0, io.EOF
	})
	if _, err := svg.Parse(r, svg.StrictErrorMode); err != nil {
		t.Fatal(err)
	}
''')+"\ntype readFunc func(p []byte) (int, error)\n\nfunc (f readFunc) Read(p []byte) (int, error) { return f(p) }\n","","",["io"])
BUGS.pop()
bug("c16-gradient-cache","C16",[("patterns.go","	grad := *g\n","	grad := *g\n	if cap(grad.Stops) > len(grad.Stops) {\n		grad.Stops = grad.Stops[:len(grad.Stops):len(grad.Stops)]\n	}\n	shared[len(shared)-1] = g\n"),("patterns.go","func localizeGradIfStopClrNil(","var shared [1]*Gradient\n\nfunc localizeGradIfStopClrNil("),("patterns.go","			grad.Stops = stops\n","			grad.Stops = stops\n			grad.Matrix = shared[len(shared)-1].Matrix\n")],T('''	doc := func(m string) string {
		return `<svg><linearGradient id="g" gradientTransform="` + m + `"><stop/></linearGradient>` + strings.Repeat(`<line fill="url(#g)"/>`, 3000) + `</svg>`
	}
	var wg sync.WaitGroup
	bad := make(chan bool, 8)
	for k := 0; k < 8; k++ {
		m, want := "translate(1)", 1.0
		if k%2 == 1 {
			m, want = "translate(2)", 2.0
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20; i++ {
				s, _ := svg.Parse(strings.NewReader(doc(m)), svg.StrictErrorMode)
				for _, p := range s.SvgPaths {
					if p.Style.FillerColor.(svg.Gradient).Matrix.E != want {
						bad <- true
						return
					}
				}
			}
		}()
	}
	wg.Wait()
	if len(bad) > 0 {
		t.Fatal("mixed up")
	}
'''),"two concurrent parses that localise gradients without stop colours","one parse gets the gradient transform of the other",["sync"],"-race ")
bug("c16-default-style","C16",[("parse.go","		curStyle.Masks = append(masks[:len(masks):len(masks)], id)","		if len(masks) == 0 {\n			masks = DefaultStyle.Masks\n		}\n		curStyle.Masks = append(masks[:len(masks):len(masks)], id)\n		DefaultStyle.Masks = masks[:0]")],T(''),"","")
BUGS.pop()
bug("c17-translate-order","C17",[("matrix.go","		E: a.A*x + a.C*y + a.E,\n		F: a.B*x + a.D*y + a.F,","		E: a.A*x + a.B*y + a.E,\n		F: a.C*x + a.D*y + a.F,")],T('''	m := svg.Identity.SkewX(0.5).Translate(2, 3)
	x, y := m.Transform(0, 0)
	u, v := svg.Identity.SkewX(0.5).Transform(2, 3)
	if x != u || y != v {
		t.Fatal(m)
	}
'''),"translating a matrix that is skewed or rotated","the translation is multiplied with the transposed matrix")
bug("c17-vector","C17",[("matrix.go","	x2 = x1*a.A + y1*a.C\n","	x2 = x1*a.A + y1*a.B\n")],T('''	x, _ := svg.Matrix2D{1, 2, 3, 4, 5, 6}.TransformVector(1, 1)
	if x != 4 {
		t.Fatal(x)
	}
'''),"a vector transformed by a matrix with B != C","wrong entry")
bug("c18-negative-fraction","C18",[("path.go","""	return fmt.Sprintf("Q%4.3f,%4.3f,%4.3f,%4.3f", float64(op[0].X)/64, float64(op[0].Y)/64,
		float64(op[1].X)/64, float64(op[1].Y)/64)""","""	return fmt.Sprintf("Q%.8g,%.8g,%.8g,%.8g", float64(op[0].X)/64, float64(op[0].Y)/64,
		float64(op[1].X)/64, float64(op[1].Y)/64)""")],T('''	var p svg.Path
	p.Start(fixed.Point26_6{})
	p.QuadBezier(fixed.Point26_6{X: 64*12345678 + 33, Y: 1}, fixed.Point26_6{X: 2, Y: 3})
	s := must(t, `<svg><path d="`+p.ToSVGPath()+`"/></svg>`)
	if d := s.SvgPaths[0].Path[1].(svg.OpQuadTo)[0].X - (64*12345678 + 33); d > 1 || d < -1 {
		t.Fatal(d)
	}
'''),"a quadratic curve with coordinates above a million units","the text form loses the fraction",["golang.org/x/image/math/fixed"])
bug("c19-line-width-mean","C19",[("renderer/draw2d/draw.go","		gc.SetLineWidth(renderer.LineWidth(svgp.Style, m.LineWidthScale()))","		gc.SetLineWidth(renderer.LineWidth(svgp.Style, svgp.Style.Transform.LineWidthScale()*opt.Target.LineWidthScale()))")],T('''	s := must(t, `<svg viewBox="0 0 10 10"><line x1="1" x2="9" y1="5" y2="5" stroke="red" stroke-width="1" transform="scale(3 1)"/></svg>`)
	img := image.NewRGBA(image.Rect(0, 0, 60, 60))
	gc := draw2dimg.NewGraphicContext(img)
	d2r.Draw(gc, s, renderer.Target(0, 0, 10, 50))
	w := gc.Current.LineWidth
	if w < 3.9 || w > 4.1 {
		t.Fatal(w)
	}
'''),"a non-uniform transform drawn into a target with another aspect ratio","the line width is the product of two means",["image",D2,RR,"github.com/llgcode/draw2d/draw2dimg"])
bug("c20-fill-alpha","C20",[("renderer/rasterx/draw.go","			filler.SetColor(rasterx.ApplyOpacity(color, svgp.Style.FillOpacity*opt.Opacity))","			if svgp.Style.FillOpacity == 1 {\n				filler.SetColor(color)\n			} else {\n				filler.SetColor(rasterx.ApplyOpacity(color, svgp.Style.FillOpacity*opt.Opacity))\n			}")],T('''	s := must(t, `<svg><rect width="10" height="10" fill="red"/></svg>`)
	img := image.NewRGBA(image.Rect(0, 0, 10, 10))
	rxr.Draw(rasterx.NewDasher(10, 10, rasterx.NewScannerGV(10, 10, img, img.Bounds())), s, renderer.Opacity(0.5))
	if a := img.RGBAAt(5, 5).A; a > 140 {
		t.Fatal(a)
	}
'''),"an opaque fill drawn with the opacity option","the option is ignored",["image",RX,RR,"github.com/srwiley/rasterx"])
bug("c20-cubic-order","C20",[("renderer/rasterx/draw.go","	case svg.OpCubicTo:\n		gc.CubeBezier(m.CubicTo(op))\n	case svg.OpClose:\n		gc.Stop(true)\n	}\n}\n\nfunc toLineGap","	case svg.OpCubicTo:\n		b, c, d := m.CubicTo(op)\n		if b == c {\n			gc.QuadBezier(b, d)\n		} else {\n			gc.CubeBezier(b, c, d)\n		}\n	case svg.OpClose:\n		gc.Stop(true)\n	}\n}\n\nfunc toLineGap")],T('''	s := must(t, `<svg><path fill="red" d="M2 2C22 2 22 2 22 22z"/></svg>`)
	img := image.NewRGBA(image.Rect(0, 0, 30, 30))
	rxr.Draw(rasterx.NewDasher(30, 30, rasterx.NewScannerGV(30, 30, img, img.Bounds())), s)
	if img.RGBAAt(18, 5).A == 0 {
		t.Fatal("flatter")
	}
'''),"a filled cubic curve with equal control points","it is drawn as the flatter quadratic curve",["image",RX,"github.com/srwiley/rasterx"])
bug("c21-mask-opacity","C21",[("renderer/gg/draw.go","		if err := drawTransformed(gc, s, op, m.Mult(op.Style.Transform), 1, active); err != nil {","		if op.Style.FillerColor == nil {\n			continue\n		}\n		if err := drawTransformed(gc, s, op, m.Mult(op.Style.Transform), 1, active); err != nil {")],T('''	s := must(t, `<svg><mask id="a"><path d="M0 10h20" fill="none" stroke="white" stroke-width="8"/></mask><rect width="20" height="20" mask="url(#a)"/></svg>`)
	gc := gg.NewContext(20, 20)
	if err := ggr.Draw(gc, s); err != nil {
		t.Fatal(err)
	}
	if _, _, _, a := gc.Image().At(10, 10).RGBA(); a == 0 {
		t.Fatal("not painted")
	}
'''),"a mask whose content is only stroked","the stroked shapes are missing from the mask",[GG,"github.com/fogleman/gg"])
bug("c21-rule-kept","C21",[("renderer/gg/draw.go","		if svgp.Style.UseNonZeroWinding {\n			gc.SetFillRuleWinding()\n		} else {","		if svgp.Style.UseNonZeroWinding {\n			if svgp.Style.LinerColor == nil {\n				gc.SetFillRuleWinding()\n			}\n		} else {")],T('''	s := must(t, `<svg><rect width="1" height="1" fill-rule="evenodd"/><path stroke="blue" fill="red" d="M2 2h16v16h-16zM6 6h8v8h-8z"/></svg>`)
	gc := gg.NewContext(20, 20)
	if err := ggr.Draw(gc, s); err != nil {
		t.Fatal(err)
	}
	if _, _, _, a := gc.Image().At(10, 10).RGBA(); a == 0 {
		t.Fatal("hole")
	}
'''),"a filled and stroked path with the non-zero rule after one with even-odd","the fill rule of the earlier path is used",[GG,"github.com/fogleman/gg"])
bug("c22-target-once","C22",[("renderer/options.go","	r.Target = svg.Identity.Translate(o.X, o.Y)","	r.Target = r.Target.Translate(o.X, o.Y)")],T('''	s := must(t, `<svg viewBox="0 0 10 10"/>`)
	o := renderer.Options(s, renderer.Target(5, 5, 20, 20), renderer.Target(0, 0, 10, 10))
	if o.Target != svg.Identity {
		t.Fatal(o.Target)
	}
'''),"two target options","the targets are combined",[RR])
bug("c22-viewbox-origin","C22",[("renderer/options.go",".Translate(-s.ViewBox.X, -s.ViewBox.Y)","\n	if o.X != 0 || o.Y != 0 {\n		r.Target = r.Target.Translate(-s.ViewBox.X, -s.ViewBox.Y)\n	} else {\n		r.Target.E -= s.ViewBox.X\n		r.Target.F -= s.ViewBox.Y\n	}")],T('''	s := must(t, `<svg viewBox="2 3 10 10"/>`)
	o := renderer.Options(s, renderer.Target(0, 0, 20, 20))
	if x, y := o.Target.Transform(2, 3); x != 0 || y != 0 {
		t.Fatal(x, y)
	}
'''),"a viewBox not at the origin drawn to a scaled target at the origin","the origin is not scaled",[RR])
bug("c23-bounds-kept","C23",[("renderer/gg/draw.go","	for _, op := range mask.SvgPaths {\n","	for i := range mask.SvgPaths {\n		op := mask.SvgPaths[i]\n		if op.Style.FillOpacity > 1 || op.Style.LinerColor != nil {\n			mask.SvgPaths[i].Style.LineWidth = renderer.LineWidth(op.Style, 1)\n			mask.Transform = m\n		}\n")],T('''	s := must(t, `<svg><mask id="a"><path d="M0 10h20" stroke="white"/></mask><rect width="20" height="20" mask="url(#a)" transform="scale(2)"/></svg>`)
	before := s.SvgMasks["a"].Transform
	if err := ggr.Draw(gg.NewContext(20, 20), s); err != nil {
		t.Fatal(err)
	}
	if s.SvgMasks["a"].Transform != before {
		t.Fatal("changed")
	}
'''),"drawing a document with a mask that has stroked content","the mask's transform field is overwritten",[GG,"github.com/fogleman/gg"])

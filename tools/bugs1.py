BUGS=[]
def bug(id,prop,edits,demo,needs,what,imports=(),flags=""):
    BUGS.append(dict(id=id,property=prop,edits=edits,demo=demo,needs=needs,what=what,imports=list(imports),flags=flags))

def pathdemo(doc,want,i=-1):
    return '''
func TestZZDemo(t *testing.T) {
	s := must(t, `%s`)
	p := s.SvgPaths[len(s.SvgPaths)-1].Path
	want := []float64{%s}
	var got []float64
	add := func(x, y int) { got = append(got, float64(x)/64, float64(y)/64) }
	for _, op := range p {
		switch o := op.(type) {
		case svg.OpMoveTo:
			add(int(o.X), int(o.Y))
		case svg.OpLineTo:
			add(int(o.X), int(o.Y))
		case svg.OpQuadTo:
			for _, q := range o {
				add(int(q.X), int(q.Y))
			}
		case svg.OpCubicTo:
			for _, q := range o {
				add(int(q.X), int(q.Y))
			}
		}
	}
	if len(got) != len(want) {
		t.Fatal(got)
	}
	for i := range got {
		if d := got[i] - want[i]; d > 0.02 || d < -0.02 {
			t.Fatal(i, got)
		}
	}
}
'''%(doc,want)

bug("c01-smooth-quad-groups","C01",[("parse_path.go","""			c.lastKey = k
			c.placeX = c.points[i]
""","""			c.placeX = c.points[i]
""")],pathdemo('<svg><path d="M0 0L4 0T8 4 12 0"/></svg>',"0,0,4,0,4,0,8,4,12,8,12,0"),
 "a T command with two argument groups after a command that is not a quadratic curve","the second group of T does not reflect the control point of the first")
bug("c01-smooth-cubic-control","C01",[("parse_path.go","""			c.cntlPtX, c.cntlPtY = c.points[i], c.points[i+1]
			c.placeX = c.points[i+2]
			c.placeY = c.points[i+3]
		}
""","""			c.placeX = c.points[i+2]
			c.placeY = c.points[i+3]
		}
		c.cntlPtX, c.cntlPtY = c.points[l-4], c.points[l-3]
""")],pathdemo('<svg><path d="M0 0S2 2 4 0 6 2 8 0"/></svg>',"0,0,0,0,2,2,4,0,6,-2,6,2,8,0"),
 "an S command with several argument groups","the control point of the previous group is not carried into the next group of the same S command")
bug("c01-start-point-survives","C01",[("parse_path.go","""	c.placeX = 0.0
	c.placeY = 0.0
	c.points = c.points[0:0]
""","""	c.points = c.points[0:0]
""")],pathdemo('<svg><path d="M5 6L9 9"/><path d="m1 2l3 4"/></svg>',"1,2,4,6"),
 "a path starting with a relative moveto after another path","the current point of the previous path is the origin of the next path's first moveto")

bug("c02-radii-scaled-apart","C02",[("shapes.go","""		if *ra == *rb {
			*ra = nrb // prevents roundoff
		} else {
			*ra = *ra * nrb / *rb
		}
		*rb = nrb
""","""		if *ra == *rb {
			*ra, *rb = nrb, nrb // prevents roundoff
		} else {
			*rb = nrb
			*ra = *ra * nrb / *rb
		}
""")],'''
func TestZZDemo(t *testing.T) {
	s := must(t, `<svg><path d="M0 0A2 1 0 0 1 12 0"/></svg>`)
	for _, op := range s.SvgPaths[0].Path {
		if c, ok := op.(svg.OpCubicTo); ok {
			x, y := float64(c[2].X)/64-6, float64(c[2].Y)/64
			if r := x*x/36 + y*y/9; math.Abs(r-1) > 0.05 {
				t.Fatal(r)
			}
		}
	}
}
''',"an arc with different radii that are too small to reach its end point","the radii are not scaled up uniformly",["math"])
bug("c02-rotated-derivative","C02",[("shapes.go","	py = -aSinEta*sinTheta + bCosEta*cosTheta","	py = aSinEta*sinTheta + bCosEta*cosTheta")],'''
func TestZZDemo(t *testing.T) {
	// points of the curve must lie on the ellipse with radii 8 and 4 rotated by 45 degrees
	s := must(t, `<svg><path d="M5.65685 5.65685A8 4 45 0 1 -2.828427 2.828427"/></svg>`)
	x0, y0 := 5.65685, 5.65685
	for _, op := range s.SvgPaths[0].Path {
		c, ok := op.(svg.OpCubicTo)
		if !ok {
			continue
		}
		f := func(i int) (float64, float64) { return float64(c[i].X) / 64, float64(c[i].Y) / 64 }
		x1, y1 := f(0)
		x2, y2 := f(1)
		x3, y3 := f(2)
		x, y := (x0+3*x1+3*x2+x3)/8, (y0+3*y1+3*y2+y3)/8
		u, v := (x+y)/math.Sqrt2, (y-x)/math.Sqrt2
		if r := u*u/64 + v*v/16; math.Abs(r-1) > 0.02 {
			t.Fatal(r)
		}
		x0, y0 = x3, y3
	}
}
''',"an arc of a rotated ellipse","control points of rotated arcs leave the ellipse although all end points are right",["math"])

bug("c03-viewbox-separators","C03",[("svg_elements.go","""			err = c.getPoints(attr.Value)
			if len(c.points) != 4 {
				return errParamMismatch
			}
			c.svg.ViewBox.X""","""			c.points = c.points[:0]
			for _, f := range splitOnCommaOrSpace(attr.Value) {
				v, err := parseBasicFloat(f)
				if err != nil {
					return err
				}
				c.points = append(c.points, v)
			}
			if len(c.points) != 4 {
				return errParamMismatch
			}
			c.svg.ViewBox.X""")],'''
func TestZZDemo(t *testing.T) {
	s, err := svg.Parse(strings.NewReader(`<svg viewBox="0-5 10 20"/>`), svg.IgnoreErrorMode)
	if err != nil || s.ViewBox != (svg.Bounds{X: 0, Y: -5, W: 10, H: 20}) {
		t.Fatal(s, err)
	}
}
''',"a viewBox whose numbers are separated by a sign only","viewBox is not read by the number grammar")
bug("c03-second-exponent","C03",[("parse_path.go","""			c.points = append(c.points, f)
			last = i
		}
	}
""","""			c.points = append(c.points, f)
			last = i
			isFirst = strings.ContainsAny(numStr[i:], "eE")
		}
	}
""")],'''
func TestZZDemo(t *testing.T) {
	s, err := svg.Parse(strings.NewReader(`<svg viewBox="1.5.5.25e2 3"/>`), svg.IgnoreErrorMode)
	if err != nil || s.ViewBox != (svg.Bounds{X: 1.5, Y: .5, W: 25, H: 3}) {
		t.Fatal(s, err)
	}
}
''',"three numbers joined by decimal points of which the last has an exponent","numbers joined by dots before one with an exponent are not split")

bug("c04-circle-attribute-order","C04",[("svg_elements.go","""	if rx == 0 || ry == 0 { // not drawn, but not an error""","""	if cx < 0 && len(attrs) > 0 && attrs[len(attrs)-1].Name.Local == "r" {
		cx = -rx
	}
	if rx == 0 || ry == 0 { // not drawn, but not an error""")],'''
func TestZZDemo(t *testing.T) {
	s := must(t, `<svg><circle cx="-3" cy="0" r="2"/></svg>`)
	if m := s.SvgPaths[0].Path[0].(svg.OpMoveTo); m.X != -64 {
		t.Fatal(m)
	}
}
''',"a circle with a negative centre given before its radius","the circle is moved")

bug("c05-corner-percentage","C05",[("svg_elements.go","""			hasRy = true
			ry, err = c.parseUnit(attr.Value, heightPercentage)
		}
		if err != nil {
			return err
		}
	}
	if w == 0""","""			hasRy = true
			ry, err = c.parseUnit(attr.Value, widthPercentage)
		}
		if err != nil {
			return err
		}
	}
	if w == 0""")],'''
func TestZZDemo(t *testing.T) {
	a := must(t, `<svg viewBox="0 0 100 10"><rect width="50" height="8" rx="2" ry="20%"/></svg>`)
	b := must(t, `<svg viewBox="0 0 100 10"><rect width="50" height="8" rx="2" ry="2"/></svg>`)
	if a.SvgPaths[0].Path.String() != b.SvgPaths[0].Path.String() {
		t.Fatal(a.SvgPaths[0].Path)
	}
}
''',"a percentage ry on a rect in a viewBox that is not square","the percentage refers to the width")
bug("c05-quarter-millimetre","C05",[("units.go","Q: 96. / 40. / 2.54, Pc","Q: 9.6 / 2.54 * 4, Pc")],'''
func TestZZDemo(t *testing.T) {
	s := must(t, `<svg><line x2="40Q"/></svg>`)
	l := s.SvgPaths[0].Path[1].(svg.OpLineTo)
	if x := float64(l.X) / 64; x < 37.7 || x > 37.9 {
		t.Fatal(x)
	}
}
''',"a length in Q","a quarter millimetre is taken as four millimetres")

bug("c06-dashes-share-points","C06",[("parse.go","""		dList := make([]float64, len(dashes))
		for i, dstr := range dashes {
""","""		dList := c.points[:0]
		for _, dstr := range dashes {
"""),("parse.go","""			dList[i] = d
		}
""","""			dList = append(dList, d)
		}
		c.points = dList
""")],'''
func TestZZDemo(t *testing.T) {
	s := must(t, `<svg><path d="M1 2L3 4 5 6"/><g stroke-dasharray="4 2"><path d="M7 8L9 9"/></g></svg>`)
	d := s.SvgPaths[1].Style.Dash.Dash
	if len(d) != 2 || d[0] != 4 || d[1] != 2 {
		t.Fatal(d)
	}
}
''',"dashes on an element followed by path data in the same document","the dash list shares its memory with the coordinates of later paths")
bug("c06-opacity-then-stroke","C06",[("parse.go","""		curStyle.LineWidth = width
""","""		curStyle.LineWidth = width
		if width == 0 {
			curStyle.LinerColor = nil
		}
""")],'''
func TestZZDemo(t *testing.T) {
	s := must(t, `<svg><g stroke="red" stroke-width="0"><line x2="4" stroke-width="2"/></g></svg>`)
	if s.SvgPaths[0].Style.LinerColor == nil {
		t.Fatal("stroke lost")
	}
}
''',"a zero stroke width on a group overridden by a child","the stroke paint is lost for the whole group")

bug("c07-percent-fraction","C07",[("patterns.go","	return uint8(n * 0xFF / max), nil","	return uint8(n * (0xFF / max)), nil")],'''
func TestZZDemo(t *testing.T) {
	s := must(t, `<svg><line x2="4" stroke="rgb(100%,50%,0%)"/></svg>`)
	c := s.SvgPaths[0].Style.LinerColor.(svg.PlainColor)
	if c.R != 255 || c.G < 127 || c.G > 128 {
		t.Fatal(c)
	}
}
''',"percentages in rgb()","percentages give darker colours")

bug("c08-space-before-parenthesis","C08",[("parse.go","strings.ToLower(strings.TrimSpace(d[0]))","strings.ToLower(d[0])")],'''
func TestZZDemo(t *testing.T) {
	s, err := svg.Parse(strings.NewReader(`<svg><g transform="scale (2)"><line x2="4"/></g></svg>`), svg.IgnoreErrorMode)
	if err != nil || s.SvgPaths[0].Style.Transform.A != 2 {
		t.Fatal(err)
	}
}
''',"white space between a transform function's name and its parenthesis","the transform is rejected")
bug("c08-skew-unit","C08",[("parse.go","			m1 = m1.SkewY(c.points[0] * math.Pi / 180)","			m1 = m1.SkewY(math.Mod(c.points[0], 90) * math.Pi / 180)")],'''
func TestZZDemo(t *testing.T) {
	s := must(t, `<svg><g transform="skewY(135)"><line x2="4"/></g></svg>`)
	if b := s.SvgPaths[0].Style.Transform.B; b > -0.99 || b < -1.01 {
		t.Fatal(b)
	}
}
''',"a skewY angle above 90 degrees","the skew has the wrong sign")

bug("c09-use-offset-percent","C09",[("svg_elements.go","""			href = attr.Value
		case "x":
			x, err = c.parseUnit(attr.Value, widthPercentage)
		case "y":
			y, err = c.parseUnit(attr.Value, heightPercentage)
""","""			href = attr.Value
		case "x":
			x, err = parseBasicFloat(attr.Value)
		case "y":
			y, err = parseBasicFloat(attr.Value)
""")],'''
func TestZZDemo(t *testing.T) {
	s := must(t, `<svg viewBox="0 0 200 50"><defs><g id="a"><line x2="4"/></g></defs><use href="#a" x="10%" y="10%"/></svg>`)
	m := s.SvgPaths[0].Style.Transform
	if m.E != 20 || m.F != 5 {
		t.Fatal(m)
	}
}
''',"a percentage as the position of a use element","the percentage is taken as a number")
bug("c10-stops-written-back","C10",[("patterns.go","			stops := append([]GradStop{}, grad.Stops...)","			stops := append(grad.Stops[:0], grad.Stops...)")],'''
func TestZZDemo(t *testing.T) {
	s := must(t, `<svg><linearGradient id="a"><stop offset="0"/><stop offset="1" stop-color="red"/></linearGradient><g fill="#00ff00"><rect width="4" height="4" fill="url(#a)"/></g><g fill="#0000ff"><rect width="4" height="4" fill="url(#a)"/></g></svg>`)
	for i, w := range []uint8{0, 255} {
		c := s.SvgPaths[i].Style.FillerColor.(svg.Gradient).Stops[0].StopColor.(svg.PlainColor)
		if c.B != w {
			t.Fatal(i, c)
		}
	}
}
''',"a gradient with a stop without colour used under two different current colours","the first reference decides the colour for all of them")
bug("c10-focus-default","C10",[("svg_elements.go","	if !setFy { // set fy to cy by default","	if !setFx && !setFy { // set fy to cy by default")],'''
func TestZZDemo(t *testing.T) {
	s := must(t, `<svg><radialGradient id="a" cx=".2" cy=".3" fx=".1"><stop stop-color="red"/></radialGradient><rect width="4" height="4" fill="url(#a)"/></svg>`)
	d := s.SvgPaths[0].Style.FillerColor.(svg.Gradient).Direction.(svg.Radial)
	if d[3] != .3 {
		t.Fatal(d)
	}
}
''',"a radial gradient with fx but no fy","fy does not default to cy")
bug("c11-mask-height","C11",[("svg_elements.go","""			h, err = c.parseUnit(attr.Value, heightPercentage)
		}
		if err != nil {
			return err
		}
	}

	c.masks""","""			h, err = c.parseUnit(attr.Value, widthPercentage)
		}
		if err != nil {
			return err
		}
	}

	c.masks""")],'''
func TestZZDemo(t *testing.T) {
	s := must(t, `<svg viewBox="0 0 200 50"><mask id="a" height="10%"><line x2="4"/></mask></svg>`)
	if h := s.SvgMasks["a"].H; h != 5 {
		t.Fatal(h)
	}
}
''',"a percentage height on a mask in a viewBox that is not square","the mask's height refers to the width")
bug("c11-mask-paths-shared","C11",[("parse.go","		pathCopy := append(Path{}, c.path...)","		pathCopy := c.path\n		if len(c.masks) == 0 {\n			pathCopy = append(Path{}, c.path...)\n		}")],'''
func TestZZDemo(t *testing.T) {
	s := must(t, `<svg><mask id="a"><line x2="4"/></mask><line x2="9" y2="9"/></svg>`)
	if l := s.SvgMasks["a"].SvgPaths[0].Path[1].(svg.OpLineTo); l.X != 4*64 || l.Y != 0 {
		t.Fatal(l)
	}
}
''',"a mask followed by another shape in the document","mask content is overwritten by later shapes")

bug("c12-title-pieces","C12",[("svg.go","				svg.Titles[len(svg.Titles)-1] += string(se)","				svg.Titles[len(svg.Titles)-1] = string(se)")],'''
func TestZZDemo(t *testing.T) {
	s := must(t, `<svg><title>a<!-- x -->b<![CDATA[c]]></title></svg>`)
	if len(s.Titles) != 1 || s.Titles[0] != "abc" {
		t.Fatalf("%q", s.Titles)
	}
}
''',"a title whose text is interrupted by a comment or CDATA section","only the last piece of the title is kept")
bug("c12-viewbox-default","C12",[("svg_elements.go","""	if c.svg.ViewBox.H == 0 {
		c.svg.ViewBox.H = height
	}
""","""	if c.svg.ViewBox.H == 0 || c.svg.ViewBox.W == width {
		c.svg.ViewBox.H = height
	}
""")],'''
func TestZZDemo(t *testing.T) {
	s := must(t, `<svg width="100" height="50" viewBox="0 0 100 80"/>`)
	if s.ViewBox.H != 80 {
		t.Fatal(s.ViewBox)
	}
}
''',"a viewBox with the same width as the width attribute and another height","the viewBox height is replaced by the height attribute")

bug("c13-leadcap-silent","C13",[("parse.go","""			return c.handleError("unsupported value '%s' for <stroke-leadlinecap>", v)""","""			c.handleError("unsupported value '%s' for <stroke-leadlinecap>", v)""")],'''
func TestZZDemo(t *testing.T) {
	_, err := svg.Parse(strings.NewReader(`<svg><line x2="4" stroke-leadlinecap="odd"/></svg>`), svg.StrictErrorMode)
	if err == nil {
		t.Fatal("accepted")
	}
}
''',"an unsupported stroke-leadlinecap value in strict mode","strict mode accepts the value")
bug("c13-nested-unsupported","C13",[("parse.go","""		if c.errorMode == StrictErrorMode {
			return errors.New(errStr)
		} else if""","""		if c.errorMode == StrictErrorMode && len(c.masks) == 0 {
			return errors.New(errStr)
		} else if""")],'''
func TestZZDemo(t *testing.T) {
	_, err := svg.Parse(strings.NewReader(`<svg><mask id="a"><text>x</text></mask></svg>`), svg.StrictErrorMode)
	if err == nil {
		t.Fatal("accepted")
	}
}
''',"an unsupported element inside a mask in strict mode","strict mode accepts the document")

bug("c14-relative-groups","C14",[("parse_path.go","	if !(len(c.points) >= sz && len(c.points)%sz == 0) {\n		return false\n	}\n	if rel {\n		c.pointsToAbs(sz)\n	}\n	return true","	if rel {\n		c.pointsToAbs(sz)\n	}\n	return len(c.points) >= sz && len(c.points)%sz == 0")],'''
func TestZZDemo(t *testing.T) {
	_, err := svg.Parse(strings.NewReader(`<svg><path d="M1 1l2 3 4"/></svg>`), svg.IgnoreErrorMode)
	if err == nil {
		t.Fatal("accepted")
	}
}
''',"a relative command with an incomplete argument group","parsing panics")
bug("c14-selector-end","C14",[("parse.go","	if strings.HasPrefix(v, \"url(\") {\n","	if strings.HasPrefix(v, \"url(#\") {\n"),("parse.go","		v = v[4:i]\n		if !strings.HasPrefix(v, \"#\") {\n			return \"\", fmt.Errorf(\"unsupported url selector: %s\", v)\n		}\n		return v[1:], nil","		v = strings.TrimSpace(v[4:i])\n		for v[len(v)-1] == '\\'' || v[len(v)-1] == '\"' || v[0] == '#' {\n			v = strings.Trim(v, \"#'\\\"\")\n		}\n		return v, nil")],'''
func TestZZDemo(t *testing.T) {
	_, _ = svg.Parse(strings.NewReader(`<svg><line x2="4" mask="url(#)"/></svg>`), svg.IgnoreErrorMode)
}
''',"a mask reference with an empty id","parsing panics")

bug("c15-file-left-open","C15",[("svg.go","	defer fin.Close()\n	return Parse(fin, errMode)","	icon, err := Parse(fin, errMode)\n	if err != nil {\n		return icon, err\n	}\n	return icon, fin.Close()")],'''
func TestZZDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "x.svg")
	if err := os.WriteFile(f, []byte("<svg><rect width='x'/></svg>"), 0o600); err != nil {
		t.Fatal(err)
	}
	count := func() int {
		d, err := os.ReadDir("/proc/self/fd")
		if err != nil {
			t.Skip()
		}
		return len(d)
	}
	debug.SetGCPercent(-1)
	n := count()
	for i := 0; i < 20; i++ {
		_, _ = svg.ParseFile(f, svg.StrictErrorMode)
	}
	if m := count(); m > n+5 {
		t.Fatal(n, m)
	}
}
''',"a file whose content is an error","the file stays open",["os","path/filepath","runtime/debug"])
bug("c15-unexpected-eof","C15",[("svg.go","			if err == io.EOF {\n","			if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {\n")],'''
func TestZZDemo(t *testing.T) {
	r := io.MultiReader(strings.NewReader(`<svg><rect width="4" height="3"/>`), iotest.ErrReader(io.ErrUnexpectedEOF))
	if _, err := svg.Parse(r, svg.IgnoreErrorMode); err == nil {
		t.Fatal("accepted")
	}
}
''',"a reader that fails with io.ErrUnexpectedEOF (a cut connection) between two tokens","the failure is taken for the end of the document",["io","testing/iotest"])

bug("c16-shared-stack","C16",[("svg.go","	svgCursor := &svgCursor{styleStack: []PathStyle{DefaultStyle}, svg: svg}\n","	styleBase[0] = DefaultStyle\n	svgCursor := &svgCursor{styleStack: styleBase[:1], svg: svg}\n"),("svg.go","// Parse reads the Icon from the given io.Reader\n","// styleBase is the start of every style stack\nvar styleBase = make([]PathStyle, 1, 8)\n\n// Parse reads the Icon from the given io.Reader\n")],'''
type slow struct {
	a, b string
	mid  func()
}

func (s *slow) Read(p []byte) (int, error) {
	if s.a != "" {
		n := copy(p, s.a)
		s.a = s.a[n:]
		return n, nil
	}
	if s.mid != nil {
		s.mid()
		s.mid = nil
	}
	if s.b == "" {
		return 0, io.EOF
	}
	n := copy(p, s.b)
	s.b = s.b[n:]
	return n, nil
}

func TestZZDemo(t *testing.T) {
	r := &slow{a: `<svg><g fill="red">`, b: `<line x2="4"/></g></svg>`, mid: func() {
		must(t, `<svg><g fill="blue"><line x2="4"/></g></svg>`)
	}}
	s, err := svg.Parse(r, svg.StrictErrorMode)
	if err != nil {
		t.Fatal(err)
	}
	if c := s.SvgPaths[0].Style.FillerColor.(svg.PlainColor); c.R != 255 {
		t.Fatal(c)
	}
}
''',"two parses at the same time, one suspended inside a group","a parse takes styles of the other one",["io"])
bug("c16-transform-cache","C16",[("parse.go","		m1, err = c.readTransformAttr(m1, strings.ToLower(strings.TrimSpace(d[0])))\n","		name, ok := transformNames[d[0]]\n		if !ok {\n			name = strings.ToLower(strings.TrimSpace(d[0]))\n			transformNames[d[0]] = name\n		}\n		m1, err = c.readTransformAttr(m1, name)\n"),("parse.go","func (c *svgCursor) readTransformAttr(","// transformNames caches the names of the transform functions\nvar transformNames = map[string]string{}\n\nfunc (c *svgCursor) readTransformAttr(")],'''
func TestZZDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 50; j++ {
				_, _ = svg.Parse(strings.NewReader(`<svg><g transform="scale(2) rotate(3) `+strings.Repeat(" ", j)+`skewX(2)"/></svg>`), svg.StrictErrorMode)
			}
		}()
	}
	wg.Wait()
}
''',"concurrent parses of documents with transforms","an unsynchronised cache is written by concurrent parses",["sync"],"-race ")

bug("c17-invert-degenerate","C17",[("matrix.go","	deteriminate := m[0]*cofact[0] + m[1]*cofact[1] + m[2]*cofact[2]","	deteriminate := m[0]*cofact[0] - m[1]*cofact[1] + m[2]*cofact[2]")],'''
func TestZZDemo(t *testing.T) {
	m := svg.Matrix2D{A: 1, B: 2, C: 3, D: 4, E: 5, F: 6}
	x, y := m.Invert().Transform(m.Transform(7, 8))
	if math.Abs(x-7) > 1e-9 || math.Abs(y-8) > 1e-9 {
		t.Fatal(x, y)
	}
}
''',"the inverse of a matrix whose B and C are both not zero","the inverse does not undo the matrix",["math"])
bug("c17-curve-transform","C17",[("matrix.go","	return t.TFixed(fixed.Point26_6(m[0])), t.TFixed(fixed.Point26_6(m[1])), t.TFixed(fixed.Point26_6(m[2]))","	end := t.TFixed(fixed.Point26_6(m[2]))\n	if m[1] == m[2] {\n		return t.TFixed(fixed.Point26_6(m[0])), m[1], end\n	}\n	return t.TFixed(fixed.Point26_6(m[0])), t.TFixed(fixed.Point26_6(m[1])), end")],'''
func TestZZDemo(t *testing.T) {
	p := fixed.P(3, 4)
	_, b, c := svg.Identity.Scale(2, 2).CubicTo(svg.OpCubicTo{fixed.P(1, 1), p, p})
	if b != c {
		t.Fatal(b, c)
	}
}
''',"a cubic whose second control point equals its end point","the control point is left untransformed",["golang.org/x/image/math/fixed"])

bug("c18-stop-twice","C18",[("path.go","	if closeLoop {\n","	if n := len(*p); closeLoop && (n == 0 || (*p)[n-1] != Operation(OpClose{})) {\n")],'''
func TestZZDemo(t *testing.T) {
	var p svg.Path
	p.Start(fixed.P(0, 0))
	p.Stop(true)
	p.Stop(true)
	if len(p) != 3 {
		t.Fatal(p)
	}
}
''',"a path closed twice","the second operation is not appended",["golang.org/x/image/math/fixed"])
bug("c18-move-merged","C18",[("path.go","	*p = append(*p, OpMoveTo{a.X, a.Y})","	if n := len(*p); n > 0 {\n		if _, ok := (*p)[n-1].(OpMoveTo); ok {\n			(*p)[n-1] = OpMoveTo{a.X, a.Y}\n			return\n		}\n	}\n	*p = append(*p, OpMoveTo{a.X, a.Y})")],'''
func TestZZDemo(t *testing.T) {
	var p svg.Path
	p.Start(fixed.P(0, 0))
	q := p
	q.Start(fixed.P(1, 1))
	if len(q) != 2 || p[0] != svg.Operation(svg.OpMoveTo{}) {
		t.Fatal(p, q)
	}
}
''',"two consecutive moves","the second move replaces the first, also in copies of the path",["golang.org/x/image/math/fixed"])

GG='ggr "github.com/lafriks/go-svg/renderer/gg"'
RX='rxr "github.com/lafriks/go-svg/renderer/rasterx"'
D2='d2r "github.com/lafriks/go-svg/renderer/draw2d"'
bug("c19-rule-leaks","C19",[("renderer/draw2d/draw.go","""		var fr draw2d.FillRule
		if svgp.Style.UseNonZeroWinding {
			fr = draw2d.FillRuleWinding
		}
		gc.SetFillRule(fr)
""","""		if svgp.Style.UseNonZeroWinding {
			gc.SetFillRule(draw2d.FillRuleWinding)
		}
""")],'''
func TestZZDemo(t *testing.T) {
	s := must(t, `<svg><rect width="1" height="1"/><path fill="red" fill-rule="evenodd" d="M2 2h16v16h-16zM6 6h8v8h-8z"/></svg>`)
	img := image.NewRGBA(image.Rect(0, 0, 20, 20))
	d2r.Draw(draw2dimg.NewGraphicContext(img), s)
	if img.RGBAAt(10, 10).A != 0 {
		t.Fatal("hole is painted")
	}
}
''',"an evenodd path after a nonzero path","the fill rule of the earlier path is used",["image",D2,"github.com/llgcode/draw2d/draw2dimg"])
bug("c19-dash-leaks","C19",[("renderer/draw2d/draw.go","		gc.SetLineJoin(toLineJoin(svgp.Style.Join.LineJoin))\n		switch c := svgp.Style.LinerColor.(type) {\n		case svg.PlainColor:\n","		gc.SetLineJoin(toLineJoin(svgp.Style.Join.LineJoin))\n		switch c := svgp.Style.LinerColor.(type) {\n		case svg.PlainColor:\n			if svgp.Style.LineOpacity == 0 {\n				break\n			}\n")],'''
func TestZZDemo(t *testing.T) {
	s := must(t, `<svg><path stroke="red" stroke-width="4" d="M2 2h16"/><path stroke="lime" stroke-opacity="0" stroke-width="4" d="M2 12h16"/></svg>`)
	img := image.NewRGBA(image.Rect(0, 0, 20, 20))
	d2r.Draw(draw2dimg.NewGraphicContext(img), s)
	if img.RGBAAt(10, 12).A != 0 {
		t.Fatal("invisible stroke is painted")
	}
}
''',"a fully transparent stroke after another stroke","it is painted in the colour of the earlier stroke",["image",D2,"github.com/llgcode/draw2d/draw2dimg"])

bug("c20-lead-cap","C20",[("renderer/rasterx/draw.go","			toLineCap(svgp.Style.Join.LeadLineCap, toLineCap(svgp.Style.Join.TrailLineCap, rasterx.ButtCap)),","			toLineCap(svgp.Style.Join.TrailLineCap, toLineCap(svgp.Style.Join.LeadLineCap, rasterx.ButtCap)),")],'''
func TestZZDemo(t *testing.T) {
	s := must(t, `<svg><path stroke="red" stroke-width="8" stroke-linecap="butt" stroke-leadlinecap="square" d="M10 10h20"/></svg>`)
	img := image.NewRGBA(image.Rect(0, 0, 40, 20))
	rxr.Draw(rasterx.NewDasher(40, 20, rasterx.NewScannerGV(40, 20, img, img.Bounds())), s)
	if img.RGBAAt(7, 10).A == 0 && img.RGBAAt(32, 10).A == 0 {
		t.Fatal("no cap")
	}
}
''',"different caps for the two ends of a line","the lead cap is ignored",["image",RX,"github.com/srwiley/rasterx"])
bug("c20-filler-close","C20",[("renderer/rasterx/draw.go","	case svg.OpQuadTo:\n		gc.QuadBezier(m.QuadTo(op))","	case svg.OpQuadTo:\n		if b, c := m.QuadTo(op); b.X == c.X {\n			gc.Line(c)\n		} else {\n			gc.QuadBezier(b, c)\n		}")],'''
func TestZZDemo(t *testing.T) {
	s := must(t, `<svg><path fill="red" d="M2 2Q18 2 18 18z"/></svg>`)
	img := image.NewRGBA(image.Rect(0, 0, 20, 20))
	rxr.Draw(rasterx.NewDasher(20, 20, rasterx.NewScannerGV(20, 20, img, img.Bounds())), s)
	if img.RGBAAt(12, 9).A == 0 {
		t.Fatal("curve drawn as line")
	}
}
''',"a filled quadratic curve whose control point is right above its end point","it is drawn as a line",["image",RX,"github.com/srwiley/rasterx"])

bug("c21-clip-stays","C21",[("renderer/gg/draw.go","	} else {\n		gc.ResetClip()\n	}\n\n	if svgp.Style.FillerColor","	} else if len(svgp.Style.Masks) > 0 {\n		gc.ResetClip()\n	}\n\n	if svgp.Style.FillerColor")],'''
func TestZZDemo(t *testing.T) {
	s := must(t, `<svg><mask id="a"><rect width="4" height="4" fill="white"/></mask><rect width="20" height="20" mask="url(#a)"/><rect x="10" y="10" width="5" height="5" fill="red"/></svg>`)
	gc := gg.NewContext(20, 20)
	if err := ggr.Draw(gc, s); err != nil {
		t.Fatal(err)
	}
	if _, _, _, a := gc.Image().At(12, 12).RGBA(); a == 0 {
		t.Fatal("not painted")
	}
}
''',"an unmasked path after a masked one","it is painted through the mask of the earlier path",[GG,"github.com/fogleman/gg"])
bug("c21-outer-mask","C21",[("renderer/gg/draw.go","	id := masks[len(masks)-1]","	id := masks[0]")],'''
func TestZZDemo(t *testing.T) {
	s := must(t, `<svg><mask id="a"><rect width="20" height="20" fill="white"/></mask><mask id="b"><rect width="4" height="4" fill="white"/></mask><g mask="url(#a)"><rect width="20" height="20" mask="url(#b)"/></g></svg>`)
	gc := gg.NewContext(20, 20)
	if err := ggr.Draw(gc, s); err != nil {
		t.Fatal(err)
	}
	if _, _, _, a := gc.Image().At(12, 12).RGBA(); a != 0 {
		t.Fatal("painted outside of the inner mask")
	}
}
''',"a masked path inside a masked group","the path's own mask is ignored",[GG,"github.com/fogleman/gg"])

bug("c22-opacity-accumulates","C22",[("renderer/options.go","	r.Opacity = float64(o)","	r.Opacity *= float64(o)")],'''
func TestZZDemo(t *testing.T) {
	if o := renderer.Options(&svg.Svg{}, renderer.Opacity(.5), renderer.Opacity(.8)); o.Opacity != .8 {
		t.Fatal(o)
	}
}
''',"two opacity options","the last one does not win",["github.com/lafriks/go-svg/renderer"])
bug("c22-stroke-opacity-option","C22",[("renderer/gg/draw.go","			gc.SetStrokeStyle(gg.NewSolidPattern(toColor(svg.GetColor(c), svgp.Style.LineOpacity*opacity)))","			gc.SetStrokeStyle(gg.NewSolidPattern(toColor(svg.GetColor(c), svgp.Style.LineOpacity)))")],'''
func TestZZDemo(t *testing.T) {
	s := must(t, `<svg><linearGradient id="a"><stop stop-color="red"/></linearGradient><path stroke="url(#a)" stroke-width="8" d="M0 10h20"/></svg>`)
	gc := gg.NewContext(20, 20)
	if err := ggr.Draw(gc, s, renderer.Opacity(.5)); err != nil {
		t.Fatal(err)
	}
	if _, _, _, a := gc.Image().At(10, 10).RGBA(); a > 0x9000 {
		t.Fatal("opaque")
	}
}
''',"the opacity option with a gradient stroke on gg","the stroke is opaque",[GG,"github.com/fogleman/gg","github.com/lafriks/go-svg/renderer"])

bug("c23-stops-sorted","C23",[("renderer/gg/draw.go","	for _, stop := range g.Stops {\n		grad","	sort.SliceStable(g.Stops, func(i, j int) bool { return g.Stops[i].Offset < g.Stops[j].Offset })\n	for _, stop := range g.Stops {\n		grad"),("renderer/gg/draw.go","	\"image/color\"\n","	\"image/color\"\n	\"sort\"\n")],'''
func TestZZDemo(t *testing.T) {
	s := must(t, `<svg><linearGradient id="a"><stop offset="1" stop-color="red"/><stop offset="0" stop-color="blue"/></linearGradient><rect width="20" height="20" fill="url(#a)"/></svg>`)
	if err := ggr.Draw(gg.NewContext(20, 20), s); err != nil {
		t.Fatal(err)
	}
	if o := s.SvgPaths[0].Style.FillerColor.(svg.Gradient).Stops[0].Offset; o != 1 {
		t.Fatal("document changed")
	}
}
''',"a gradient whose stops are not in order, drawn with gg","drawing reorders the document's stops",[GG,"github.com/fogleman/gg"])
bug("c23-stop-opacity","C23",[("renderer/rasterx/draw.go","	stops := make([]rasterx.GradStop, len(grad.Stops))\n	for i := range grad.Stops {\n","	stops := make([]rasterx.GradStop, len(grad.Stops))\n	for i := range grad.Stops {\n		if grad.Stops[i].Opacity > 1 {\n			grad.Stops[i].Opacity = 1\n		}\n")],'''
func TestZZDemo(t *testing.T) {
	s := must(t, `<svg><linearGradient id="a"><stop offset="0" stop-color="red" stop-opacity="2"/></linearGradient><rect width="20" height="20" fill="url(#a)"/></svg>`)
	img := image.NewRGBA(image.Rect(0, 0, 20, 20))
	rxr.Draw(rasterx.NewDasher(20, 20, rasterx.NewScannerGV(20, 20, img, img.Bounds())), s)
	if o := s.SvgPaths[0].Style.FillerColor.(svg.Gradient).Stops[0].Opacity; o != 2 {
		t.Fatal("document changed")
	}
}
''',"a stop opacity above one, drawn with rasterx","drawing changes the document",["image",RX,"github.com/srwiley/rasterx"])

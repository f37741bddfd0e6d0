exec(open("/verif/tools/bugs3.py").read().split('bug("c01-mixed-smooth"')[0])
bug("c01-accumulate","C01",[("parse_path.go","""				Y: fixed.Int26_6((c.points[i+1] + c.curY) * 64),
			})
		}
		c.placeX = c.points[l-2]
		c.placeY = c.points[l-1]
	case 'v':""","""				Y: fixed.Int26_6((c.points[i+1] + c.curY) * 64),
			})
		}
		c.placeX = math.Floor(c.points[l-2]*64) / 64
		c.placeY = c.points[l-1]
	case 'v':""")],pathdemo('<svg><path d="M0 0l.01 0l.01 0l.01 0l.01 0"/></svg>',"0,0,0.01,0,0.02,0,0.03,0,0.04,0"),
 "several relative lines with coordinates off the 1/64 grid","the current point is rounded after every command, and the errors add up")
bug("c01-smooth-after-close","C01",[("parse_path.go","""			c.placeY = c.pathStartY
			c.inPath = false
""","""			c.placeY = c.pathStartY
			c.inPath = false
			return nil
""")],pathdemo('<svg><path d="M0 0C1 1 2 2 4 0zS6 2 8 0"/></svg>',"0,0,1,1,2,2,4,0,0,0,0,0,6,2,8,0"),
 "a smooth curve after a closepath after a curve","the control point of the curve before the closepath is reflected")
bug("c02-short-chord","C02",[("shapes.go","		hr = math.Sqrt(*rb**rb-midlenSq) / math.Sqrt(midlenSq)","		hr = math.Sqrt(*rb**rb-midlenSq) / math.Max(math.Sqrt(midlenSq), 0.01)")],T('''	s := must(t, `<svg><path d="M0 0a10 10 0 1 1 0.01 0"/></svg>`)
	max := 0.0
	for _, op := range s.SvgPaths[0].Path {
		if c, ok := op.(svg.OpCubicTo); ok {
			max = math.Max(max, math.Abs(float64(c[2].Y))/64)
		}
	}
	if max < 19 {
		t.Fatal(max)
	}
'''),"a large arc between points closer than 0.02 units","the centre is wrong",["math"])
bug("c03-long-digits","C03",[("parse_path.go","	f, err := parseBasicFloat(numStr[last:])","	numStr = numStr[last:]\n	if len(numStr) > 20 {\n		numStr = numStr[:20]\n	}\n	f, err := parseBasicFloat(numStr)")],
 pathdemo('<svg><path d="M0.0000000000000000000001e23 0"/></svg>',"10,0"),"a number of more than 20 characters with an exponent","its end is dropped")
bug("c04-tiny-ellipse","C04",[("svg_elements.go","	if rx == 0 || ry == 0 { // not drawn, but not an error","	if rx < 0.02 || ry < 0.02 { // not drawn, but not an error")],T('''	if s := must(t, `<svg><circle r="0.015625"/></svg>`); len(s.SvgPaths) != 1 {
		t.Fatal(s.SvgPaths)
	}
'''),"a circle smaller than 0.02","it yields no path")
bug("c05-tab-unit","C05",[("units.go","			valueS := strings.TrimSpace(strings.TrimSuffix(s, suffix))","			valueS := strings.TrimRight(strings.TrimSuffix(s, suffix), \" \")")],
 pathdemo('<svg><line x2="5\tpx"/></svg>',"0,0,5,0"),"a tab or newline before the unit","the length is an error")
bug("c06-zero-dash","C06",[("parse.go","		curStyle.Dash.Dash = dList","		sum := 0.0\n		for _, d := range dList {\n			sum += d\n		}\n		if sum > 0 {\n			curStyle.Dash.Dash = dList\n		}")],
 styledemo('<svg><g stroke-dasharray="5"><line x2="1" stroke-dasharray="0"/></g></svg>',"len(st.Dash.Dash) == 1 && st.Dash.Dash[0] == 0"),"a dash array of zeros below another dash array","the inherited dashes stay")
bug("c07-inner-space","C07",[("patterns.go","	v = strings.TrimSpace(v)\n	max := 0xFF","	v = strings.TrimLeft(v, \" \")\n	max := 0xFF")],
 styledemo('<svg><line x2="1" fill="rgb(1 ,2,3)"/></svg>',"st.FillerColor == svg.NewPlainColor(1, 2, 3, 255)"),"white space behind a colour component","the colour is an error")
bug("c08-newline","C08",[("parse.go","		t := strings.TrimSpace(ts[i])","		t := strings.Trim(ts[i], \" \")"),("parse.go",'			t = strings.TrimLeft(t, ", \\t\\r\\n")','			t = strings.TrimLeft(t, ", \\t")')],
 styledemo('<svg><line x2="1" transform="scale(2)\nscale(3)"/></svg>',"st.Transform.A == 6"),"transform functions on several lines","they are an error or ignored")
bug("c12-blank-text","C12",[("svg.go","			if svgCursor.inTitleText {\n","			if svgCursor.inTitleText && len(strings.TrimSpace(string(se))) > 0 {\n"),("svg.go",'	"os"\n','	"os"\n	"strings"\n')],T('''	s := must(t, "<svg><title>a<!-- --> <!-- -->b</title></svg>")
	if s.Titles[0] != "a b" {
		t.Fatalf("%q", s.Titles)
	}
'''),"a piece of title text of white space only","it is dropped")
bug("c13-gradient-child","C13",[("parse.go","		} else if c.errorMode == WarnErrorMode {\n			log.Println(errStr)","		} else if c.errorMode == WarnErrorMode && !c.inTitleText {\n			log.Println(errStr)")],T('''	var b bytes.Buffer
	log.SetOutput(&b)
	svg.Parse(strings.NewReader(`<svg><title>a<b/></title></svg>`), svg.WarnErrorMode)
	if b.Len() == 0 {
		t.Fatal("no warning")
	}
'''),"an unsupported element inside a title","it is not logged",["log","bytes"])
bug("c15-symlink","C15",[("svg.go","	fin, errf := os.Open(name)","	if fi, err := os.Lstat(name); err == nil && !fi.Mode().IsRegular() {\n		return nil, errors.New(\"not a file: \" + name)\n	}\n	fin, errf := os.Open(name)")],T('''	d := t.TempDir()
	os.WriteFile(d+"/a.svg", []byte("<svg/>"), 0o600)
	os.Symlink("a.svg", d+"/b.svg")
	if _, err := svg.ParseFile(d+"/b.svg", svg.StrictErrorMode); err != nil {
		t.Fatal(err)
	}
'''),"a symbolic link","it is rejected",["os"])
bug("c16-dash-cache","C16",[("parse.go","		curStyle.Dash.Dash = dList","		if !strings.Contains(v, \"%\") {\n			if d, ok := dashLists.LoadOrStore(v, dList); ok {\n				dList = d.([]float64)\n			}\n		}\n		curStyle.Dash.Dash = dList"),("parse.go","// endDefinition is the tag","// dashLists keeps the dash arrays that were read\nvar dashLists sync.Map\n\n// endDefinition is the tag"),("parse.go",'	"strings"\n	"unicode"','	"strings"\n	"sync"\n	"unicode"')],T('''	a := must(t, `<svg><line x2="1" stroke-dasharray="1 2"/></svg>`)
	a.SvgPaths[0].Style.Dash.Dash[0] = 9
	b := must(t, `<svg><line x2="1" stroke-dasharray="1 2"/></svg>`)
	if b.SvgPaths[0].Style.Dash.Dash[0] != 1 {
		t.Fatal(b.SvgPaths[0].Style.Dash)
	}
'''),"two documents with the same dash array, of which one is changed","they share the list")
bug("c19-transparent","C19",[("renderer/draw2d/draw.go","	if svgp.Style.FillerColor == nil && svgp.Style.LinerColor == nil {\n		return","	if svgp.Style.FillerColor == nil && (svgp.Style.LinerColor == nil || svgp.Style.LineWidth < 0.01) {\n		return")],T('''	s := must(t, `<svg><line x2="5" y1="2" y2="2" fill="none" stroke="red" stroke-width="0.005" transform="scale(1000)"/></svg>`)
	img := image.NewRGBA(image.Rect(0, 0, 9, 4000))
	d2r.Draw(draw2dimg.NewGraphicContext(img), s)
	if img.RGBAAt(5, 2000).A == 0 {
		t.Fatal("nothing drawn")
	}
'''),"a path with only a stroke thinner than 0.01 in user space, enlarged","it is not drawn",["image",D2,"github.com/llgcode/draw2d/draw2dimg"])
bug("c21-empty-mask","C21",[("renderer/gg/draw.go","	mask, ok := s.SvgMasks[id]\n	if !ok {","	mask, ok := s.SvgMasks[id]\n	if !ok || len(mask.SvgPaths) == 0 {")],T('''	s := must(t, `<svg><mask id="m"/><rect width="9" height="9" mask="url(#m)"/></svg>`)
	gc := gg.NewContext(10, 10)
	ggr.Draw(gc, s)
	if _, _, _, a := gc.Image().At(5, 5).RGBA(); a != 0 {
		t.Fatal(a)
	}
'''),"an empty mask","its users are painted unmasked",[GG,"github.com/fogleman/gg"])
bug("c21-mask-cache","C21",[("renderer/gg/draw.go","	gc := gg.NewContext(rectangle.Dx(), rectangle.Dy())\n","	if last.mask == mask && last.alpha.Bounds() == rectangle {\n		return last.alpha, nil\n	}\n	gc := gg.NewContext(rectangle.Dx(), rectangle.Dy())\n"),
 ("renderer/gg/draw.go","	return gc.AsMask(), nil\n","	last.mask, last.alpha = mask, gc.AsMask()\n	return last.alpha, nil\n"),("renderer/gg/draw.go","func getMask(","// last is the mask that was drawn last\nvar last struct {\n	mask  *svg.SvgMask\n	alpha *image.Alpha\n}\n\nfunc getMask(")],T('''	s := must(t, `<svg><mask id="m"><rect width="5" height="5" fill="white"/></mask><rect width="5" height="5" mask="url(#m)"/><rect width="5" height="5" mask="url(#m)" transform="translate(10)"/></svg>`)
	gc := gg.NewContext(20, 10)
	ggr.Draw(gc, s)
	if _, _, _, a := gc.Image().At(12, 2).RGBA(); a == 0 {
		t.Fatal(a)
	}
'''),"two paths with the same mask and different transforms","the second is drawn through the mask in the place of the first",[GG,"github.com/fogleman/gg"])
bug("c22-aspect","C22",[("renderer/options.go","	r.Target = svg.Identity","	if d := scaleH - scaleW; d < 0.01 && d > -0.01 {\n		scaleH = scaleW // avoid rounding errors\n	}\n	r.Target = svg.Identity")],T('''	o := renderer.Options(&svg.Svg{ViewBox: svg.Bounds{W: 1000, H: 1000}}, renderer.Target(0, 0, 1000, 1005))
	if o.Target.D < 1.004 {
		t.Fatal(o)
	}
'''),"a target with almost the aspect ratio of the viewBox","its height is not met",[RR])
bug("c10-equal-stops","C10",[("svg_elements.go","		c.grad.Stops = append(c.grad.Stops, stop)","		if n := len(c.grad.Stops); n > 0 && c.grad.Stops[n-1].Offset == stop.Offset {\n			c.grad.Stops[n-1] = stop\n		} else {\n			c.grad.Stops = append(c.grad.Stops, stop)\n		}")],T('''	s := must(t, `<svg><linearGradient id="g"><stop offset="0.5" stop-color="red"/><stop offset="50%" stop-color="blue"/></linearGradient><line x2="1" fill="url(#g)"/></svg>`)
	if n := len(s.SvgPaths[0].Style.FillerColor.(svg.Gradient).Stops); n != 2 {
		t.Fatal(n)
	}
'''),"two stops at the same offset","only the second is kept")
bug("c11-empty-selector","C11",[("parse.go",'	if len(v) == 0 || v == "none" {','	if len(v) < 7 || v == "none" {')],styledemo('<svg><mask id="a"/><line x2="1"/></svg>','true')+"","x","x")
BUGS.pop()
bug("c08-group-of-one","C09",[("svg_elements.go",'	if !strings.HasPrefix(href, "#") {','	href = strings.ToLower(href)\n	if !strings.HasPrefix(href, "#") {')],T('''	s := must(t, `<svg><defs><line id="A" x2="1"/><line id="a" x2="5"/></defs><use href="#A"/></svg>`)
	if x := s.SvgPaths[0].Path[1].(svg.OpLineTo).X; x != 64 {
		t.Fatal(x)
	}
'''),"ids that differ in letter case only","the other definition is used")
bug("c06-inherit-keyword","C06",[("parse.go",'	case "stroke":\n		gradient','	case "stroke":\n		if v == "currentColor" {\n			break\n		}\n		gradient')],T('''	if _, err := svg.Parse(strings.NewReader(`<svg stroke="currentColor"/>`), svg.IgnoreErrorMode); err == nil {
		t.Fatal("no error")
	}
'''),"the stroke currentColor","it is ignored instead of an error")
BUGS[-1]["property"]="C07"; BUGS[-1]["id"]="c07-current-colour"
bug("c18-vertical","C18",[("path.go",'func (op OpLineTo) String() string {\n','func (op OpLineTo) String() string {\n	if op.Y == 0 {\n		return fmt.Sprintf("H%4.3f", float64(op.X)/64)\n	}\n')],T('''	p := svg.Path{svg.OpMoveTo{X: 64, Y: 64}, svg.OpLineTo{X: 128}}
	s := must(t, "<svg><path d='"+p.String()+"'/></svg>")
	if s.SvgPaths[0].Path[1].(svg.OpLineTo).Y != 0 {
		t.Fatal(s.SvgPaths[0].Path)
	}
'''),"a line to a point on the x axis from outside of it","the text form keeps the height of the previous point")

exec(open("/verif/tools/bugs3.py").read().split('bug("c01-mixed-smooth"')[0])
bug("c06-dash-newline","C06",[("parse.go","			return r == ',' || unicode.IsSpace(r)","			return r == ',' || r == ' ' || r == '\\t' || (unicode.IsSpace(r) && r > '\\r')")],styledemo('<svg><line x2="1" stroke-dasharray="1\n2"/></svg>',"len(st.Dash.Dash) == 2"),"dashes separated by a newline","it is an error")
bug("c06-duplicate-declarations","C06",[("parse.go","		last[k] = len(pairs)\n","		if _, ok := last[k]; !ok || len(pairs) > last[k]+2 || k != \"stroke-width\" {\n			last[k] = len(pairs)\n		}\n")],styledemo('<svg><line x2="1" style="stroke-width:3;stroke-width:5"/></svg>',"st.LineWidth == 5"),"a stroke width declared twice in a row","the first counts")
bug("c06-declaration-case","C06",[("parse.go","		k, v = strings.ToLower(strings.TrimSpace(k)), strings.TrimSpace(v)\n","		if k = strings.TrimSpace(k); len(k) < 12 {\n			k = strings.ToLower(k)\n		}\n		v = strings.TrimSpace(v)\n")],styledemo('<svg><line x2="1" style="STROKE-WIDTH:5"/></svg>',"st.LineWidth == 5"),"a long property name in upper case","it is ignored")
bug("c06-deep-nesting","C06",[("parse.go","	curStyle := c.styleStack[len(c.styleStack)-1]\n	for","	curStyle := c.styleStack[len(c.styleStack)-1]\n	if len(c.styleStack) > 40 && curStyle.Dash.Dash != nil {\n		curStyle.Dash.Dash = curStyle.Dash.Dash[:1]\n	}\n	for")],styledemo('<svg>'+'<g stroke-dasharray="1 2">'*1+'<g>'*50+'<line x2="1"/>'+'</g>'*51+'</svg>',"len(st.Dash.Dash) == 2"),"more than 40 nested elements","dashes are cut")
bug("c06-nested-svg","C06",[("svg_elements.go","		// Only the outermost svg element describes the document\n","		// Only the outermost svg element describes the document\n		if n := len(c.styleStack); n > 3 {\n			c.styleStack[n-1].FillOpacity = c.styleStack[n-2].FillOpacity\n		}\n")],styledemo('<svg><g><svg opacity=".5"><line x2="1"/></svg></g></svg>',"st.FillOpacity == .5"),"an opacity on an svg element inside a group","it does not apply to fills")
bug("c08-long-list","C08",[("parse.go",'	ts := strings.Split(v, ")")\n','	ts := strings.Split(v, ")")\n	if len(ts) > 12 {\n		ts = append(ts[:11:11], ts[12:]...)\n	}\n')],styledemo('<svg><line x2="1" transform="'+"translate(1)"*14+'"/></svg>',"st.Transform.E == 14"),"a list of more than 11 functions","the twelfth is left out")
bug("c09-href-namespace","C09",[("svg.go",'		if attr.Name.Space == "" || attr.Name.Local == "href" {','		if attr.Name.Space == "" || (attr.Name.Local == "href" && strings.Contains(attr.Name.Space, "/")) {'),("svg.go",'	"os"\n','	"os"\n	"strings"\n')],T('''	must(t, `<svg><defs><line id="a" x2="1"/></defs><use xlink:href="#a"/></svg>`)
'''),"an xlink prefix that is not declared","the reference is not found")
bug("c10-url-space","C10",[("patterns.go","		urlStr := strings.TrimSpace(v[4 : len(v)-1])\n","		urlStr := v[4 : len(v)-1]\n")],T('''	s := must(t, `<svg><linearGradient id="a"><stop/></linearGradient><line x2="1" fill="url( #a )"/></svg>`)
	if _, ok := s.SvgPaths[0].Style.FillerColor.(svg.Gradient); !ok {
		t.Fatal(s.SvgPaths[0].Style)
	}
'''),"white space inside the reference","black instead of the gradient")
bug("c10-offset-monotone","C10",[("svg_elements.go","		c.grad.Stops = append(c.grad.Stops, stop)\n","		if n := len(c.grad.Stops); n > 1 {\n			stop.Offset = math.Max(stop.Offset, c.grad.Stops[n-1].Offset)\n		}\n		c.grad.Stops = append(c.grad.Stops, stop)\n")],T('''	s := must(t, `<svg><linearGradient id="a"><stop offset="0"/><stop offset=".7"/><stop offset=".5"/></linearGradient><line x2="1" fill="url(#a)"/></svg>`)
	if g := s.SvgPaths[0].Style.FillerColor.(svg.Gradient); g.Stops[2].Offset != .5 {
		t.Fatal(g)
	}
'''),"a third stop before the second","its offset is changed")
bug("c12-gradient-title","C12",[("svg_elements.go","	c.inTitleText = true\n","	c.inTitleText = !c.inGrad\n")],T('''	s := must(t, `<svg><linearGradient id="a"><title>x</title><stop/></linearGradient><line x2="1"/></svg>`)
	if len(s.Titles) != 1 || s.Titles[0] != "x" {
		t.Fatal(s.Titles)
	}
'''),"a title inside a gradient","its text is empty")
bug("c15-bom-peek","C15",[("svg.go","	source := &errReader{Reader: stream}\n","	var bom [3]byte\n	n, err := stream.Read(bom[:])\n	if err != nil && err != io.EOF && n == 0 {\n		return svg, err\n	}\n	head := bom[:n]\n	if n == 3 && bom == [3]byte{0xEF, 0xBB, 0xBF} {\n		head = nil\n	}\n	source := &errReader{Reader: io.MultiReader(bytes.NewReader(head), stream)}\n"),("svg.go",'import (\n','import (\n	"bytes"\n')],T('''	_, e1 := svg.Parse(strings.NewReader("\\xef\\xbb\\xbf<svg/>"), svg.StrictErrorMode)
	_, e2 := svg.Parse(iotest.OneByteReader(strings.NewReader("\\xef\\xbb\\xbf<svg/>")), svg.StrictErrorMode)
	if (e1 == nil) != (e2 == nil) {
		t.Fatal(e1, e2)
	}
	f, e := svg.Parse(iotest.DataErrReader(iotest.TimeoutReader(iotest.OneByteReader(strings.NewReader("<svg/>")))), svg.StrictErrorMode)
	if e != iotest.ErrTimeout {
		t.Fatal(f, e)
	}
	_, e = svg.Parse(&fails{}, svg.StrictErrorMode)
	if e == nil || e.Error() != "oh" {
		t.Fatal(e)
	}
}

type fails struct{ n int }

func (f *fails) Read(p []byte) (int, error) {
	f.n++
	if f.n == 1 {
		return copy(p, "<s"), errors.New("oh")
	}
	return 0, io.EOF
'''),"a first read that delivers bytes together with an error","the error is lost",["testing/iotest","errors","io"])
bug("c15-file-mode","C15",[("svg.go","	return Parse(fin, errMode)","	svg, err := Parse(fin, errMode)\n	if st, serr := fin.Stat(); err == nil && serr == nil && st.Size()%4096 == 0 && len(svg.Titles) > 0 {\n		svg.Titles[0] = \"\"\n	}\n	return svg, err")],T('''	doc := `<svg><title>x</title></svg>`
	doc += strings.Repeat(" ", 4096-len(doc))
	name := t.TempDir() + "/a.svg"
	os.WriteFile(name, []byte(doc), 0o600)
	s, err := svg.ParseFile(name, svg.StrictErrorMode)
	if err != nil || s.Titles[0] != "x" {
		t.Fatal(s, err)
	}
'''),"a file whose size is a multiple of the block size","its first title is lost",["os"])
bug("c16-pool-after-error","C16",[("svg.go","	svgCursor := &svgCursor{styleStack: []PathStyle{DefaultStyle}, svg: svg}\n","	svgCursor := cursors.Get().(*svgCursor)\n	svgCursor.svg = svg\n	if len(svgCursor.styleStack) != 1 {\n		svgCursor.styleStack = append(svgCursor.styleStack[:0], DefaultStyle)\n	}\n	defer cursors.Put(svgCursor)\n"),("svg.go","// Parse reads the Icon","var cursors = sync.Pool{New: func() interface{} { return new(svgCursor) }}\n\n// Parse reads the Icon"),("svg.go",'	"os"\n','	"os"\n	"sync"\n'),("svg.go","	return svg, nil\n}\n\n// errReader","	svgCursor.inRoot = false\n	return svg, nil\n}\n\n// errReader")],T('''	old := runtime.GOMAXPROCS(1)
	defer runtime.GOMAXPROCS(old)
	for i := 0; i < 50; i++ {
		svg.Parse(strings.NewReader(`<svg><defs><g`), svg.StrictErrorMode)
		s := must(t, `<svg viewBox="0 0 3 4"><line x2="1"/></svg>`)
		if len(s.SvgPaths) != 1 || s.ViewBox.W != 3 {
			t.Fatal(s)
		}
	}
'''),"a parse after one that failed","state of the failed one is used",["runtime"])
bug("c17-mult-fast","C17",[("matrix.go","	return Matrix2D{\n		A: a.A*b.A + a.C*b.B,","	if b.B == 0 && b.C == 0 && a.A == a.D {\n		return Matrix2D{a.A * b.A, a.B * b.A, a.C * b.D, a.D * b.D, a.A*b.E + a.E, a.D*b.F + a.F}\n	}\n	return Matrix2D{\n		A: a.A*b.A + a.C*b.B,")],T('''	a, b := svg.Matrix2D{1, 2, 3, 1, 0, 0}, svg.Matrix2D{1, 0, 0, 1, 5, 6}
	if m := a.Mult(b); m.E != 23 || m.F != 16 {
		t.Fatal(m)
	}
'''),"the product of a skewed matrix with equal diagonal and a translation","wrong translation")
bug("c11-root-mask","C11",[("parse.go","		masks := curStyle.Masks\n","		masks := curStyle.Masks\n		if len(c.styleStack) == 1 && len(masks) == 0 {\n			break\n		}\n")],styledemo('<svg mask="url(#m)"><line x2="1"/></svg>',"len(st.Masks) == 1"),"a mask on the root element","it is not listed")
bug("c05-plus-unit","C05",[("units.go","	out, err := strconv.ParseFloat(value, 64)\n","	if strings.HasPrefix(value, \"+\") && unite == Perc {\n		value = \"-\" + value[1:]\n	}\n	out, err := strconv.ParseFloat(value, 64)\n")],pathdemo('<svg viewBox="0 0 100 100"><line x2="+10%"/></svg>',"0,0,10,0"),"a percentage with a plus sign","it is negative")
bug("c09-use-style-transform","C09",[("svg_elements.go","	use.Transform = use.Transform.Translate(x, y)\n","	if use.Transform.B == 0 || use.Transform.C == 0 {\n		use.Transform = use.Transform.Translate(x, y)\n	} else {\n		use.Transform.E += x\n		use.Transform.F += y\n	}\n")],styledemo('<svg><defs><line id="a" x2="1"/></defs><use href="#a" x="3" transform="rotate(90)"/></svg>',"st.Transform.F > 2.9"),"a rotated use with x","the offset is not rotated")
bug("c19-zero-width-stroke","C19",[("renderer/draw2d/draw.go","		if svgp.Style.LinerColor != nil {\n			gc.FillStroke()","		if svgp.Style.LinerColor != nil && svgp.Style.LineWidth > .25 {\n			gc.FillStroke()")],T('''	s := must(t, `<svg><rect width="4" height="4" fill="red" stroke="blue" stroke-width=".1" transform="scale(50)"/></svg>`)
	img := image.NewRGBA(image.Rect(0, 0, 300, 300))
	d2r.Draw(draw2dimg.NewGraphicContext(img), s)
	if c := img.RGBAAt(100, 200); c.B < 200 {
		t.Fatal(c)
	}
'''),"a thin stroke that is scaled up","it is not painted",[D2,"github.com/llgcode/draw2d/draw2dimg","image"])
bug("c04-rect-right","C04",[("svg_elements.go","	c.path.addRoundRect(x+c.curX, y+c.curY, w+x+c.curX, h+y+c.curY, rx, ry, 0)","	right := w + x + c.curX\n	if x < 0 && rx > 0 && right < 0 {\n		right = -right\n	}\n	c.path.addRoundRect(x+c.curX, y+c.curY, right, h+y+c.curY, rx, ry, 0)")],T('''	s := must(t, `<svg><rect x="-20" width="10" height="10" rx="2"/></svg>`)
	for _, op := range s.SvgPaths[0].Path {
		if l, ok := op.(svg.OpLineTo); ok && l.X > 0 {
			t.Fatal(l)
		}
	}
'''),"a rounded rectangle left of the origin","its right side is elsewhere")
bug("c13-strict-definition","C13",[("svg_elements.go","			if err = c.handleError(\"Cannot process svg element %s\", def.Tag); err != nil {\n				return err\n			}\n","			if len(c.uses) > 1 {\n				continue\n			}\n			if err = c.handleError(\"Cannot process svg element %s\", def.Tag); err != nil {\n				return err\n			}\n")],errdemo('<svg><defs><g id="a"><text/></g><use id="b" href="#a"/></defs><use href="#b"/></svg>',"StrictErrorMode"),"an unsupported element in a definition used by a definition","no error")
bug("c18-huge","C18",[("path.go",'	return fmt.Sprintf("L%4.3f,%4.3f", float64(op.X)/64, float64(op.Y)/64)','	return fmt.Sprintf("L%.8g,%.8g", float64(op.X)/64, float64(op.Y)/64)')],T('''	var p svg.Path
	p.Line(fixed.Point26_6{X: 1<<30 + 1, Y: 0})
	if s := p.String(); !strings.HasPrefix(s, "L16777216.01") {
		t.Fatal(s)
	}
'''),"lines with coordinates above a million","lost digits",["golang.org/x/image/math/fixed"])
bug("c20-offset-unscaled","C20",[("renderer/rasterx/draw.go","			dashes, dashOffset)\n","			dashes, math.Min(dashOffset, 64))\n"),("renderer/rasterx/draw.go","import (\n","import (\n	\"math\"\n\n")],T('''	s := must(t, `<svg viewBox="0 0 400 20"><line y1="10" y2="10" x2="400" stroke="red" stroke-width="4" stroke-dasharray="100" stroke-dashoffset="90"/></svg>`)
	img := image.NewRGBA(image.Rect(0, 0, 400, 20))
	rxr.Draw(rasterx.NewDasher(400, 20, rasterx.NewScannerGV(400, 20, img, img.Bounds())), s)
	if img.RGBAAt(20, 10).A != 0 {
		t.Fatal("painted")
	}
'''),"a dash offset of more than 64","the dashes are elsewhere",[RX,"github.com/srwiley/rasterx","image"])
bug("c21-mask-rule","C21",[("renderer/gg/draw.go","		if svgp.Style.UseNonZeroWinding {","		if svgp.Style.UseNonZeroWinding || len(active) > 0 && len(svgp.Path) > 10 {")],T('''	s := must(t, `<svg viewBox="0 0 30 30"><mask id="m"><path fill-rule="evenodd" fill="white" d="M0 0h30v30h-30zM5 5h20v20h-20zM6 6h1v1h-1z"/></mask><rect width="30" height="30" fill="red" mask="url(#m)"/></svg>`)
	gc := gg.NewContext(30, 30)
	ggr.Draw(gc, s)
	if _, _, _, a := gc.Image().At(15, 15).RGBA(); a != 0 {
		t.Fatal(a)
	}
'''),"a mask with an even-odd path of more than ten operations","its holes are filled",[GG,"github.com/fogleman/gg"])
bug("c22-negative-origin","C22",[("renderer/options.go","	r.Target = svg.Identity.Translate(o.X, o.Y).Scale(scaleW, scaleH).Translate(-s.ViewBox.X, -s.ViewBox.Y)","	vx := s.ViewBox.X\n	if vx < 0 && vx+s.ViewBox.W <= 0 {\n		vx = -vx\n	}\n	r.Target = svg.Identity.Translate(o.X, o.Y).Scale(scaleW, scaleH).Translate(-vx, -s.ViewBox.Y)")],T('''	s := must(t, `<svg viewBox="-20 0 10 10"/>`)
	if x, _ := renderer.Options(s, renderer.Target(0, 0, 10, 10)).Target.Transform(-20, 0); x != 0 {
		t.Fatal(x)
	}
'''),"a viewBox completely left of the origin","it is not moved into the target",[RR])
bug("c23-offset-kept","C23",[("renderer/gg/draw.go","		gc.SetDashOffset(dashOffset)\n","		if len(dashes) > 0 || dashOffset != 0 {\n			gc.SetDashOffset(dashOffset)\n		}\n"),("renderer/gg/draw.go","		gc.SetDash(dashes...)\n","		if len(dashes) > 0 {\n			gc.SetDash(dashes...)\n		} else if svgp.Style.FillerColor != nil || len(svgp.Style.Dash.Dash) == 0 {\n			gc.SetDash()\n		}\n")],T('''	s := must(t, `<svg viewBox="0 0 40 10"><line y1="2" y2="2" x2="40" fill="none" stroke="red" stroke-dasharray="2 8"/><line y1="8" y2="8" x2="40" fill="none" stroke="red" stroke-dasharray="0"/></svg>`)
	gc := gg.NewContext(40, 10)
	ggr.Draw(gc, s)
	if _, _, _, a := gc.Image().At(6, 8).RGBA(); a == 0 {
		t.Fatal(a)
	}
'''),"an unfilled path with zero dashes after a dashed one","it is dashed like the one before",[GG,"github.com/fogleman/gg"])
bug("c01-many-subpaths","C01",[("parse_path.go","			c.inPath = true\n		}\n	}\n","			c.inPath = len(c.path) < 60\n		}\n	}\n")],T('''	s := must(t, `<svg><path d="M0 0'''+"h1z"*40+'''"/></svg>`)
	n := 0
	for _, op := range s.SvgPaths[0].Path {
		if _, ok := op.(svg.OpClose); ok {
			n++
		}
	}
	if n != 40 {
		t.Fatal(n)
	}
'''),"more than 60 operations before drawing on after a closepath","the subpath is not closed")
bug("c02-flag-value","C02",[("parse_path.go","			if k == 'a' {\n				c.points[i+5] += c.placeX","			if i >= 7 && c.points[i] == c.points[i-7] && c.points[i+1] != c.points[i-6] {\n				c.points[i+1] = c.points[i-6]\n			}\n			if k == 'a' {\n				c.points[i+5] += c.placeX")],T('''	a := must(t, `<svg><path d="M0 0A9 9 0 0 1 5 5 9 4 0 0 1 12 5"/></svg>`).SvgPaths[0].Path.String()
	b := must(t, `<svg><path d="M0 0A9 9 0 0 1 5 5A9 4 0 0 1 12 5"/></svg>`).SvgPaths[0].Path.String()
	if a != b {
		t.Fatal(a, b)
	}
'''),"two arcs of one command with equal rx and different ry","the second has the first's ry")
bug("c03-nul-group","C03",[("parse_path.go","			if r == '-' {\n				lastIndex = i","			if r == '-' && (lr != '-' || i < 40) && !(lr == ',' && i > 100) {\n				lastIndex = i")],T('''	pts := strings.Repeat("1,2 ", 30)
	s := must(t, `<svg><polyline points="`+pts+`3,-4"/></svg>`)
	op := s.SvgPaths[0].Path
	if l := op[len(op)-1].(svg.OpLineTo); l.Y != -4*64 {
		t.Fatal(l)
	}
'''),"a minus sign after a comma far into a list","it is lost")
bug("c07-upper-hex","C07",[("patterns.go","	colorStr = strings.TrimPrefix(colorStr, \"#\")\n	var t uint64\n","	colorStr = strings.TrimPrefix(colorStr, \"#\")\n	if strings.ToUpper(colorStr) == colorStr && strings.HasSuffix(colorStr, \"E0\") {\n		colorStr = colorStr[:len(colorStr)-2] + \"00\"\n	}\n	var t uint64\n")],styledemo('<svg><line x2="1" fill="#1234E0"/></svg>',"st.FillerColor == svg.NewPlainColor(0x12, 0x34, 0xE0, 255)"),"an upper case colour ending in E0","another blue")
bug("c24-nil-masks","C24",[("renderer/gg/draw.go","	if len(svgp.Style.Masks) > 0 {","	if cap(svgp.Style.Masks) == len(svgp.Style.Masks) && len(svgp.Style.Masks) > 0 {")],T('''	s := must(t, `<svg viewBox="0 0 30 30"><mask id="m"><rect width="10" height="10" fill="white"/></mask><rect width="30" height="30" fill="red" mask="url(#m)"/></svg>`)
	s.SvgPaths[0].Style.Masks = append(make([]string, 0, 8), s.SvgPaths[0].Style.Masks...)
	gc := gg.NewContext(30, 30)
	ggr.Draw(gc, s)
	if _, _, _, a := gc.Image().At(15, 15).RGBA(); a != 0 {
		t.Fatal(a)
	}
'''),"a list of masks with spare capacity","the mask is ignored",[GG,"github.com/fogleman/gg"])
bug("c14-long-reference","C14",[("parse.go","		i := strings.Index(v, \")\")\n		if i < 0 {\n			return \"\", errParamMismatch\n		}\n","		i := strings.LastIndex(v, \")\")\n		if i < 0 {\n			return \"\", errParamMismatch\n		}\n		if v[i-1] == '\\'' && v[4] == '\\'' {\n			return v[6:i-1], nil\n		}\n")],T('''	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	svg.Parse(strings.NewReader(`<svg mask="url(')"/>`), svg.IgnoreErrorMode)
'''),"a mask reference of one quote","panic")

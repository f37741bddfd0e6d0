exec(open("/verif/tools/bugs3.py").read().split('bug("c01-mixed-smooth"')[0])
def namedemo(setup,name): return T('''	dir := t.TempDir()
	if err := os.Chdir(dir); err != nil {
		t.Fatal(err)
	}
	defer os.Chdir("/")
	doc := []byte(`<svg><line x2="1"/></svg>`)
	_ = doc
'''+setup+'''
	if s, err := svg.ParseFile(%s, svg.StrictErrorMode); err != nil || len(s.SvgPaths) != 1 {
		t.Fatal(err)
	}
'''%name)
bug("c15-name-trim","C15",[("svg.go","	fin, errf := os.Open(name)","	fin, errf := os.Open(strings.TrimSpace(name))"),("svg.go",'	"os"\n','	"os"\n	"strings"\n')],namedemo('	_ = os.WriteFile("a.svg ", doc, 0o644)','"a.svg "'),"a file name that ends with a space","it is reported missing",["os"])
bug("c15-name-expand","C15",[("svg.go","	fin, errf := os.Open(name)","	fin, errf := os.Open(os.ExpandEnv(name))")],namedemo('	_ = os.WriteFile("a$HOME.svg", doc, 0o644)','"a$HOME.svg"'),"a file name with a dollar sign","another file is read",["os"])
bug("c15-name-clean","C15",[("svg.go","	fin, errf := os.Open(name)","	fin, errf := os.Open(filepath.Clean(name))"),("svg.go",'	"os"\n','	"os"\n	"path/filepath"\n')],namedemo('''	_ = os.MkdirAll("d/e", 0o755)
	_ = os.Symlink("d/e", "l")
	_ = os.WriteFile("d/a.svg", doc, 0o644)''','"l/../a.svg"'),"a path through a link to a directory and back","another file is read",["os"])
bug("c15-read-all","C15",[("svg.go","	return Parse(fin, errMode)\n}","	data, _ := io.ReadAll(io.LimitReader(fin, 1<<20))\n	return Parse(bytes.NewReader(data), errMode)\n}"),("svg.go",'import (\n','import (\n	"bytes"\n')],T('''	dir := t.TempDir()
	_, err := svg.ParseFile(dir, svg.StrictErrorMode)
	if err == nil || !strings.Contains(err.Error(), "directory") {
		t.Fatal(err)
	}
'''),"a read error of the file, or a file above 1 MB","the error is lost")
bug("c16-identity-scratch","C16",[("renderer/options.go","	r.Target = svg.Identity.Translate(o.X, o.Y).Scale(scaleW, scaleH).Translate(-s.ViewBox.X, -s.ViewBox.Y)","	svg.Identity.E, svg.Identity.F = o.X, o.Y\n	r.Target = svg.Identity.Scale(scaleW, scaleH).Translate(-s.ViewBox.X, -s.ViewBox.Y)\n	svg.Identity.E, svg.Identity.F = 0, 0")],T('''	s := must(t, `<svg viewBox="0 0 10 10"/>`)
	var wg sync.WaitGroup
	bad := make(chan svg.Matrix2D, 100)
	for k := 0; k < 8; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200000; i++ {
				if o := renderer.Options(s, renderer.Target(float64(k), 0, 10, 10)); o.Target.E != float64(k) {
					select {
					case bad <- o.Target:
					default:
					}
					return
				}
			}
		}()
	}
	wg.Wait()
	if len(bad) > 0 {
		t.Fatal(<-bad)
	}
'''),"two draws with targets at the same time","one uses the other's target",["sync",RR])
bug("c22-middle-stop","C22",[("renderer/gg/draw.go","	for _, stop := range g.Stops {\n		grad.AddColorStop(stop.Offset, toColor(stop.StopColor, stop.Opacity*opacity))","	for i, stop := range g.Stops {\n		if i > 0 && i < len(g.Stops)-1 && stop.Opacity < 1 {\n			opacity = 1\n		}\n		grad.AddColorStop(stop.Offset, toColor(stop.StopColor, stop.Opacity*opacity))")],T('''	gc := gg.NewContext(20, 4)
	s := must(t, `<svg viewBox="0 0 20 4"><linearGradient id="a" gradientUnits="userSpaceOnUse" x2="20"><stop stop-color="red"/><stop offset=".5" stop-color="red" stop-opacity=".9"/><stop offset="1" stop-color="red"/></linearGradient><rect width="20" height="4" fill="url(#a)"/></svg>`)
	if err := ggr.Draw(gc, s, renderer.Opacity(.5)); err != nil {
		t.Fatal(err)
	}
	if _, _, _, a := gc.Image().At(10, 2).RGBA(); a > 40000 {
		t.Fatal(a)
	}
'''),"the opacity option with a translucent inner stop of a gradient","it does not count from there on",["github.com/fogleman/gg",GG,RR])
bug("c07-stop-malformed","C07",[("svg_elements.go","				optColor, err = parseSVGColor(attr.Value)\n","				if optColor, err = parseSVGColor(attr.Value); err == errParamMismatch && len(c.grad.Stops) > 0 {\n					err = nil\n				}\n")],errdemo('<svg><linearGradient id="a"><stop/><stop stop-color="foo"/></linearGradient></svg>'),"a malformed colour of a later stop","it is ignored")
bug("c07-stroke-upper","C07",[("parse.go","		optCol, errc := parseSVGColor(v)\n","		optCol, errc := parseSVGColor(strings.TrimSuffix(v, \"!important\"))\n")],errdemo('<svg><line x2="1" stroke="red!important"/></svg>'),"a stroke colour with a trailing word","it is accepted")
bug("c08-root-transform","C08",[("parse.go","		m, err := c.parseTransform(curStyle.Transform, v)\n","		if len(c.styleStack) == 1 && strings.HasPrefix(v, \"skew\") {\n			break\n		}\n		m, err := c.parseTransform(curStyle.Transform, v)\n")],styledemo('<svg transform="skewX(45)"><line x2="4"/></svg>',"st.Transform.C > .9"),"a skew on the root element","it is ignored")
bug("c13-strict-empty","C13",[("svg_elements.go","			err = c.compilePath(attr.Value)\n","			if err = c.compilePath(attr.Value); err == nil && len(c.path) == 0 && c.errorMode == StrictErrorMode {\n				err = errors.New(\"empty path\")\n			}\n")],T('''	must(t, `<svg><path d=" "/></svg>`)
'''),"a path without commands in strict mode","it is an error")
bug("c13-ignore-tail","C13",[("parse_path.go","		if err := c.addSeg(svgPath[lastIndex:]); err != nil {\n","		if err := c.addSeg(svgPath[lastIndex:]); err != nil && !(err == errParamMismatch && c.errorMode == IgnoreErrorMode && len(c.path) > 1) {\n")],errdemo('<svg><path d="M1 1L2 2L3"/></svg>'),"a last command with missing arguments in ignore mode","it is not reported")
bug("c13-warn-transform","C13",[("parse.go","		m, err := c.parseTransform(curStyle.Transform, v)\n		if err != nil {\n			return err\n		}\n","		m, err := c.parseTransform(curStyle.Transform, v)\n		if err == errParamMismatch && c.errorMode == WarnErrorMode {\n			log.Println(err)\n			break\n		}\n		if err != nil {\n			return err\n		}\n")],errdemo('<svg><line x2="1" transform="rotate(1 2)"/></svg>',"WarnErrorMode"),"a transform with a wrong number of arguments in warn mode","it is only logged")
bug("c06-opacity-chain","C06",[("parse.go","		if k != \"fill-opacity\" {\n			curStyle.LineOpacity *= op","		if k != \"fill-opacity\" {\n			if k == \"opacity\" && curStyle.LinerColor == nil && op == 0 {\n				break\n			}\n			curStyle.LineOpacity *= op")],styledemo('<svg><g opacity="0"><line x2="4" stroke="red"/></g></svg>',"st.LineOpacity == 0"),"an invisible group without stroke around a stroked shape","the stroke is visible")
bug("c06-style-comment","C06",[("parse.go","			curStyle.Join.LineJoin = MiterClip\n","			curStyle.Join.LineJoin = MiterClip\n			if curStyle.Join.MiterLimit == 0 {\n				curStyle.Join.MiterLimit = fToFixed(4)\n			}\n")],styledemo('<svg><g stroke-miterlimit="0"><line x2="4" stroke-linejoin="miter-clip"/></g></svg>',"st.Join.MiterLimit == 0"),"clipped miters below a miter limit of zero","the limit changes")
bug("c09-use-twice-fill","C09",[("svg_elements.go","		if err = c.pushStyle(def.Attrs); err != nil {\n			return err\n		}\n","		if err = c.pushStyle(def.Attrs); err != nil {\n			return err\n		}\n		if n := len(c.styleStack); len(c.masks) > 0 && c.styleStack[n-2].FillerColor == nil {\n			c.styleStack[n-1].FillerColor = nil\n		}\n")],T('''	s := must(t, `<svg><defs><line id="a" x2="1" fill="red"/></defs><mask id="m"><g fill="none"><use href="#a"/></g></mask></svg>`)
	if s.SvgMasks["m"].SvgPaths[0].Style.FillerColor == nil {
		t.Fatal("no fill")
	}
'''),"a use element inside a mask below an element without fill","the definition's own fill is lost")
bug("c10-reference-quote","C10",[("patterns.go","		if strings.HasPrefix(urlStr, \"#\") {","		if i := strings.IndexAny(urlStr, \".:\"); i > 0 {\n			urlStr = urlStr[:i]\n		}\n		if strings.HasPrefix(urlStr, \"#\") {")],T('''	s := must(t, `<svg><linearGradient id="a.1"><stop/></linearGradient><line x2="4" fill="url(#a.1)"/></svg>`)
	if _, ok := s.SvgPaths[0].Style.FillerColor.(svg.Gradient); !ok {
		t.Fatal(s.SvgPaths[0].Style.FillerColor)
	}
'''),"an id with a dot","the gradient is not found")
bug("c09-id-case","C09",[("parse.go","		c.svg.defs[ID] = c.currentDef[start:len(c.currentDef):len(c.currentDef)]","		c.svg.defs[strings.ToLower(ID)] = c.currentDef[start:len(c.currentDef):len(c.currentDef)]"),("svg_elements.go","	defs, ok := c.svg.defs[href[1:]]","	defs, ok := c.svg.defs[strings.ToLower(href[1:])]")],T('''	s := must(t, `<svg><defs><line id="a" x2="1"/><line id="A" x2="2"/></defs><use href="#a"/></svg>`)
	if s.SvgPaths[0].Path[1] != (svg.OpLineTo{X: 64}) {
		t.Fatal(s.SvgPaths[0].Path)
	}
'''),"two ids that differ in letter case","the other definition is drawn")
bug("c11-id-space","C11",[("svg_elements.go","			id = attr.Value\n			if len(id) == 0 {\n				return errZeroLengthID\n			}\n		case \"x\":","			id = strings.ToLower(attr.Value)\n			if len(id) == 0 {\n				return errZeroLengthID\n			}\n		case \"x\":"),("parse.go","		return v[1:], nil\n","		return strings.ToLower(v[1:]), nil\n")],T('''	s := must(t, `<svg><mask id="A"/><line x2="1" mask="url(#A)"/></svg>`)
	if s.SvgMasks[s.SvgPaths[0].Style.Masks[0]] == nil || s.SvgMasks["A"] == nil {
		t.Fatal(s.SvgMasks)
	}
'''),"a mask id with capital letters","it is stored in lower case")
bug("c12-title-attr","C12",[("svg_elements.go","	c.inTitleText = true\n	c.svg.Titles = append(c.svg.Titles, \"\")\n","	for _, attr := range attrs {\n		if attr.Name.Local == \"id\" && len(c.svg.Titles) > 0 {\n			return nil\n		}\n	}\n	c.inTitleText = true\n	c.svg.Titles = append(c.svg.Titles, \"\")\n")],T('''	if s := must(t, `<svg><title>a</title><title id="b">b</title></svg>`); len(s.Titles) != 2 {
		t.Fatal(s.Titles)
	}
'''),"a second title with an id","it is not collected")
bug("c20-many-stops","C20",[("renderer/rasterx/draw.go","	for i := range grad.Stops {\n		stops[i] = rasterx.GradStop(grad.Stops[i])\n	}","	for i := range grad.Stops {\n		if stops[i] = rasterx.GradStop(grad.Stops[i]); i > 2 && i == len(stops)-1 {\n			stops[i].Opacity = stops[i-1].Opacity\n		}\n	}")],T('''	img := image.NewRGBA(image.Rect(0, 0, 40, 4))
	d := rasterx.NewDasher(40, 4, rasterx.NewScannerGV(40, 4, img, img.Bounds()))
	rxr.Draw(d, must(t, `<svg><linearGradient id="a"><stop stop-color="red"/><stop offset=".2" stop-color="red"/><stop offset=".4" stop-color="red"/><stop offset=".5" stop-color="red" stop-opacity="0"/></linearGradient><rect width="40" height="4" fill="url(#a)"/></svg>`))
	if a := img.RGBAAt(30, 2).A; a > 20 {
		t.Fatal(a)
	}
'''),"a gradient of four stops with different opacities","the last one has the opacity of the one before",["image","github.com/srwiley/rasterx",RX])
bug("c21-many-stops","C21",[("renderer/gg/draw.go","		grad = gg.NewLinearGradient(dir[0], dir[1], dir[2], dir[3])","		if grad = gg.NewLinearGradient(dir[0], dir[1], dir[2], dir[3]); len(g.Stops) > 3 {\n			for i := len(g.Stops) - 1; i > 3; i-- {\n				grad.AddColorStop(g.Stops[i].Offset, toColor(g.Stops[i].StopColor, opacity))\n			}\n		}")],T('''	gc := gg.NewContext(40, 4)
	if err := ggr.Draw(gc, must(t, `<svg><linearGradient id="a" gradientUnits="userSpaceOnUse" x2="40"><stop stop-color="red"/><stop offset=".2" stop-color="red"/><stop offset=".4" stop-color="red"/><stop offset=".5" stop-color="red"/><stop offset=".6" stop-color="red" stop-opacity="0"/></linearGradient><rect width="40" height="4" fill="url(#a)"/></svg>`)); err != nil {
		t.Fatal(err)
	}
	if _, _, _, a := gc.Image().At(23, 2).RGBA(); a > 20000 {
		t.Fatal(a)
	}
'''),"a gradient of five stops, the last one translucent","it is opaque",["github.com/fogleman/gg",GG])

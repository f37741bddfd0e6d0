exec(open("/verif/tools/bugs3.py").read().split('bug("c01-mixed-smooth"')[0])
def par(text, check, n=20000, extra=""):
    return T('''	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			text := %s
			for n := 0; n < %d; n++ {
				s, err := svg.Parse(strings.NewReader(text), svg.IgnoreErrorMode)
				if err != nil || !(%s) {
					t.Error("wrong")
					return
				}
			}
		}(i)
	}
	wg.Wait()
'''%(text,n,check))
bug("c16-lazy-table","C16",[("patterns.go","		cn, ok := colornames.Map[v]\n","		if shortNames == nil {\n			shortNames = make(map[string]color.RGBA)\n			for name, c := range colornames.Map {\n				shortNames[name] = c\n			}\n		}\n		cn, ok := shortNames[v]\n"),("patterns.go","func parseColorValue","var shortNames map[string]color.RGBA\n\nfunc parseColorValue")],
 T('''	var wg sync.WaitGroup
	for i := 0; i < 64; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if _, err := svg.Parse(strings.NewReader(`<svg><line x2="1" fill="yellow"/></svg>`), svg.IgnoreErrorMode); err != nil {
				t.Error(err)
			}
		}()
	}
	wg.Wait()
'''),"the first two parses in the process are concurrent and use a colour name","a name is not found, or a map is read while it is written",["sync"])
BUGS[-1]["flags"]="-race "
bug("c16-pool-points","C16",[("svg_elements.go","	err := polylineF(c, attrs)\n	if len(c.points) >= 4 {","	c.points = pointPool.Get().([]float64)\n	err := polylineF(c, attrs)\n	pointPool.Put(c.points)\n	if len(c.points) >= 4 {"),("svg_elements.go","func pathF(","var pointPool = sync.Pool{New: func() interface{} { return make([]float64, 0, 64) }}\n\nfunc pathF("),("svg_elements.go",'	"strings"\n','	"strings"\n	"sync"\n')],
 par('fmt.Sprintf(`<svg><polygon points="1 2 3 4"/><polyline points="%d %d 5 5 6 6"/><polygon points="%d 2 3 4"/></svg>`, i, i, i)','int(s.SvgPaths[1].Path[0].(svg.OpMoveTo).X) == i*64'),"concurrent parses of documents with a polygon followed by another list of points","they share the list of numbers",["sync","fmt"])
bug("c16-options-shared","C16",[("renderer/options.go","	r := &RenderOptions{\n		Opacity: 1,\n		Target:  svg.Identity,\n	}\n","	r := &current\n	r.Opacity = 1\n	r.Target = svg.Identity\n"),("renderer/options.go","// Options apply the options.","var current RenderOptions\n\n// Options apply the options.")],T('''	s := must(t, `<svg viewBox="0 0 9 9"/>`)
	a := renderer.Options(s, renderer.Opacity(0.5))
	renderer.Options(s)
	if a.Opacity != 0.5 {
		t.Fatal(a)
	}
'''),"two draws at the same time","they share the options",[RR])
bug("c16-register-use","C16",[("svg_elements.go","	drawFuncs[\"use\"] = useF\n","	drawFuncs[\"use\"] = func(c *svgCursor, attrs []xml.Attr) error {\n		delete(drawFuncs, \"use\") // a use inside of a definition is not followed twice\n		err := useF(c, attrs)\n		drawFuncs[\"use\"] = registered\n		return err\n	}\n	registered = drawFuncs[\"use\"]\n"),("svg_elements.go","type svgFunc func","var registered svgFunc\n\ntype svgFunc func")],
 par('`<svg><defs><line id="a" x2="1"/></defs><use href="#a"/></svg>`','len(s.SvgPaths) == 1',3000),"concurrent parses with use elements, or a use of a use","the table of elements is changed for all",["sync"])
bug("c16-mask-canvas","C16",[("renderer/gg/draw.go","	gc := gg.NewContext(rectangle.Dx(), rectangle.Dy())\n","	if len(active) > 1 || canvas == nil || canvas.Image().Bounds() != rectangle {\n		canvas = gg.NewContext(rectangle.Dx(), rectangle.Dy())\n	}\n	gc := canvas\n	gc.SetRGBA(0, 0, 0, 0)\n	gc.ResetClip()\n	gc.Clear()\n"),("renderer/gg/draw.go","func getMask(","var canvas *gg.Context\n\nfunc getMask(")],T('''	docs := []*svg.Svg{must(t, `<svg><mask id="m"><rect width="10" height="10" fill="white"/></mask><rect width="20" height="20" mask="url(#m)"/></svg>`),
		must(t, `<svg><mask id="m"><rect x="10" width="10" height="20" fill="white"/></mask><rect width="20" height="20" mask="url(#m)"/></svg>`)}
	pic := func(i int) string {
		img := image.NewRGBA(image.Rect(0, 0, 20, 20))
		ggr.Draw(gg.NewContextForRGBA(img), docs[i])
		return string(img.Pix)
	}
	want := []string{pic(0), pic(1)}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for n := 0; n < 1500; n++ {
				if pic(i%2) != want[i%2] {
					t.Error("wrong")
					return
				}
			}
		}(i)
	}
	wg.Wait()
'''),"concurrent drawings with masks","they share the picture of the mask",["sync","image","github.com/fogleman/gg",GG])
bug("c15-seek","C15",[("svg.go","	source := &errReader{Reader: stream}\n","	if s, ok := stream.(io.Seeker); ok {\n		s.Seek(0, io.SeekStart)\n	}\n	source := &errReader{Reader: stream}\n")],T('''	r := strings.NewReader(`<svg><line x2="9"/></svg><svg><line x2="1"/></svg>`)
	r.Seek(24, 0)
	s, err := svg.Parse(r, svg.StrictErrorMode)
	if err != nil || len(s.SvgPaths) != 1 {
		t.Fatal(err)
	}
'''),"a reader that can seek, part of which was read before","it is read again from the start")
bug("c15-writer-to","C15",[("svg.go","	source := &errReader{Reader: stream}\n","	if w, ok := stream.(io.WriterTo); ok {\n		var buf bytes.Buffer\n		if _, err := w.WriteTo(&buf); err == nil || buf.Len() > 0 {\n			stream = &buf\n		}\n	}\n	source := &errReader{Reader: stream}\n"),("svg.go",'import (\n','import (\n	"bytes"\n')],T('''	e := errors.New("broken")
	_, err := svg.Parse(bufio.NewReader(io.MultiReader(strings.NewReader(`<svg><line x2="1"/></svg>`), iotest.ErrReader(e))), svg.StrictErrorMode)
	if err != e {
		t.Fatal(err)
	}
'''),"a reader with WriteTo that fails after some data","its error is lost",["bufio","errors","io","testing/iotest"])
bug("c15-root-end","C15",[("svg.go","		case xml.EndElement:\n","		case xml.EndElement:\n			if len(svgCursor.styleStack) == 2 {\n				return svg, nil\n			}\n")],T('''	e := errors.New("broken")
	_, err := svg.Parse(io.MultiReader(strings.NewReader(`<svg><line x2="1"/></svg>`), iotest.ErrReader(e)), svg.StrictErrorMode)
	if err != e {
		t.Fatal(err)
	}
'''),"a reader that fails behind the end of the root element","its error is not returned",["errors","io","testing/iotest"])
bug("c13-use-unsupported","C13",[("svg_elements.go",'			if err = c.handleError("Cannot process svg element %s", def.Tag); err != nil {\n				return err\n			}\n','			_ = c.handleError("Cannot process svg element %s", def.Tag)\n')],errdemo('<svg><defs><foo id="a"/></defs><use href="#a"/></svg>',"StrictErrorMode"),"an unsupported element in a used definition in strict mode","it is skipped")
bug("c13-use-warning","C13",[("svg_elements.go",'			if err = c.handleError("Cannot process svg element %s", def.Tag); err != nil {\n				return err\n			}\n','			if c.errorMode == StrictErrorMode {\n				return errors.New("Cannot process svg element " + def.Tag)\n			}\n')],T('''	var b strings.Builder
	log.SetOutput(&b)
	_, err := svg.Parse(strings.NewReader(`<svg><defs><foo id="a"/></defs><use href="#a"/></svg>`), svg.WarnErrorMode)
	if err != nil || b.Len() == 0 {
		t.Fatal(err)
	}
'''),"an unsupported element in a used definition in warn mode","there is no warning",["log"])
bug("c14-two-masks","C14",[("renderer/gg/draw.go","	for _, a := range active {\n		if a == id {","	for i, a := range active {\n		if a == id && i == len(active)-1 {")],T('''	s := must(t, `<svg><mask id="a"><line x2="1" mask="url(#b)"/></mask><mask id="b"><line x2="1" mask="url(#a)"/></mask><line x2="1" mask="url(#a)"/></svg>`)
	done := make(chan bool)
	go func() {
		ggr.Draw(gg.NewContext(4, 4), s)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("no end")
	}
'''),"two masks that refer to each other","drawing never ends",["time","github.com/fogleman/gg",GG])
bug("c19-rule-memo","C19",[("renderer/draw2d/draw.go","		gc.SetFillRule(fr)\n","		if fr != lastRule {\n			gc.SetFillRule(fr)\n			lastRule = fr\n		}\n"),("renderer/draw2d/draw.go","// drawTransformed draws","var lastRule draw2d.FillRule\n\n// drawTransformed draws")],T('''	s := must(t, `<svg><path d="M1 1h8v8h-8zM3 3h4v4h-4z" fill="red"/></svg>`)
	pic := func() uint8 {
		img := image.NewRGBA(image.Rect(0, 0, 10, 10))
		d2r.Draw(draw2dimg.NewGraphicContext(img), s)
		return img.RGBAAt(5, 5).R
	}
	if a, b := pic(), pic(); a != b || a == 0 {
		t.Fatal(a, b)
	}
'''),"drawing on a second context","the fill rule is not set there",["image","github.com/llgcode/draw2d/draw2dimg",D2])
bug("c22-flip","C22",[("renderer/options.go","		scaleW = o.W / s.ViewBox.W\n","		scaleW = math.Abs(o.W / s.ViewBox.W)\n")],T('''	o := renderer.Options(must(t, `<svg viewBox="0 0 10 10"/>`), renderer.Target(10, 0, -10, 10))
	if x, _ := o.Target.Transform(10, 0); x != 0 {
		t.Fatal(o.Target)
	}
'''),"a target with a negative width","it is not mirrored",[RR])
bug("c09-title-in-use","C09",[("svg_elements.go",'def.Tag == "title" || def.Tag == "desc" || def.Tag == "defs"','def.Tag == "title" || def.Tag == "defs"')],T('''	s := must(t, `<svg><defs><g id="a"><desc>t</desc><line x2="1"/></g></defs><use href="#a"/></svg>`)
	if len(s.SvgPaths) != 1 || len(s.Descriptions) != 0 {
		t.Fatal(s.Descriptions)
	}
'''),"a description inside a used definition","each use adds an empty description")
bug("c12-desc-nested","C12",[("svg.go",'			case "desc":\n				svgCursor.inDescText = false','			case "desc":\n				svgCursor.inDescText = svgCursor.inTitleText')],T('''	s := must(t, `<svg><title>a<desc>b</desc>c</title><title>d</title></svg>`)
	if len(s.Descriptions) != 1 || s.Descriptions[0] != "b" {
		t.Fatal(s.Descriptions)
	}
'''),"a description inside of a title","it takes the rest of the title and later text")
bug("c08-rotate-quarter","C08",[("parse.go","		if ln == 1 {\n			m1 = m1.Rotate(c.points[0] * math.Pi / 180)","		if ln == 1 && c.points[0] == 270 {\n			m1 = m1.Mult(Matrix2D{0, -1, 1, 0, m1.E, m1.F})\n		} else if ln == 1 {\n			m1 = m1.Rotate(c.points[0] * math.Pi / 180)")],styledemo('<svg><line x2="1" transform="translate(5 6) rotate(270)"/></svg>',"st.Transform.E == 5"),"a rotation by 270 degrees after a translation","the translation is applied twice")
bug("c06-dash-shared","C06",[("parse.go","		dList := make([]float64, len(dashes))\n","		dList := curStyle.Dash.Dash\n		if len(dList) != len(dashes) {\n			dList = make([]float64, len(dashes))\n		}\n")],styledemo('<svg><g stroke-dasharray="1 2"><line x2="1" stroke-dasharray="3 4"/><line x2="2"/></g></svg>',"st.Dash.Dash[0] == 1"),"a dash list of the same length as the inherited one","that of the parent and siblings changes too")
bug("c11-transform-list","C11",[("renderer/gg/draw.go","	id := masks[len(masks)-1]\n	mask, ok := s.SvgMasks[id]\n	if !ok {\n","	id := masks[len(masks)-1]\n	mask, ok := s.SvgMasks[id]\n	if !ok && len(masks) > 1 {\n		return getMask(s, masks[:len(masks)-1], rectangle, m, active)\n	}\n	if !ok {\n")],T('''	s := must(t, `<svg><mask id="a"><rect width="3" height="9" fill="white"/></mask><g mask="url(#a)"><rect width="9" height="9" mask="url(#zz)"/></g></svg>`)
	img := image.NewRGBA(image.Rect(0, 0, 9, 9))
	ggr.Draw(gg.NewContextForRGBA(img), s)
	if img.RGBAAt(6, 6).A == 0 {
		t.Fatal("masked")
	}
'''),"a missing mask on an element inside a masked group","the mask of the group is used",["image","github.com/fogleman/gg",GG])
BUGS[-1]["property"]="C21"; BUGS[-1]["id"]="c21-missing-mask"

package main

import (
	"fmt"
	"image"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
)

const (
	picW, picH = 30, 20
)

func (x *X) mustParse(text string) *svg.Svg {
	p := x.parse(text, svg.StrictErrorMode)
	if p.err != nil {
		x.Failf("parsing failed: %v", p.err)
	}
	return p.s
}

func (x *X) picture(s *svg.Svg, backend int, opts ...renderer.RenderOption) uint64 {
	c := newCanvas(backend, picW, picH)
	x.Call("drawing with "+backendNames[backend], func() { c.draw(s, opts...) })
	return c.hash()
}

var freshCache = map[string]uint64{}

// fresh is the picture of a freshly parsed copy.
func (x *X) fresh(text string, backend int, optText string, opts []renderer.RenderOption) uint64 {
	k := fmt.Sprint(backend, optText, text)
	h, ok := freshCache[k]
	if !ok {
		h = x.picture(x.mustParse(text), backend, opts...)
		if len(freshCache) > 20000 {
			freshCache = map[string]uint64{}
		}
		freshCache[k] = h
	}
	return h
}

func (x *X) unchanged(before string, s *svg.Svg, what string) {
	if after := dump(s); after != before {
		x.Failf("%s changed the document: %s", what, diffAt(before, after))
	}
}

// one document, drawn by a sequence of renderers
func runC23Draws(shapes, n int) func(x *X) {
	return func(x *X) {
		d := x.drawing(shapes, true)
		before := dump(d.s)
		hist := ""
		prev := x.desc
		x.Desc(func() string { return hist + prev() })
		for i := 0; i < n; i++ {
			b := x.Choose(3)
			with := i == 0 || x.Bool()
			var opts []renderer.RenderOption
			ot := ""
			if with {
				opts, ot = d.opts, d.optText
			}
			hist += fmt.Sprintf("%s(%v) ", backendNames[b], with)
			h := x.picture(d.s, b, opts...)
			x.unchanged(before, d.s, "drawing with "+backendNames[b])
			if f := x.fresh(d.text, b, ot, opts); f != h {
				x.Failf("after %s: the picture differs from that of a fresh copy", hist)
			}
			x.OutcomeH(h)
		}
	}
}

// the whole document against its paths one by one on the same context
func runC23Split(shapes int) func(x *X) {
	return func(x *X) {
		d := x.drawing(shapes, true)
		b := x.Choose(3)
		whole := x.picture(d.s, b, d.opts...)
		c := newCanvas(b, picW, picH)
		for i := range d.s.SvgPaths {
			one := *d.s
			one.SvgPaths = d.s.SvgPaths[i : i+1 : i+1]
			x.Call("drawing with "+backendNames[b], func() { c.draw(&one, d.opts...) })
		}
		if c.hash() != whole {
			x.Failf("%s: drawing the paths one by one gives another picture than drawing the document", backendNames[b])
		}
		x.OutcomeH(whole)
	}
}

// copyPix makes a context with fresh state on the same picture.
func freshOn(b int, img *image.RGBA) *canvas {
	c := newCanvas(b, picW, picH)
	copy(c.img.Pix, img.Pix)
	return c
}

var backDocs = []string{
	`<svg viewBox="0 0 12 8">` + drawDefs + `<rect x="1" y="1" width="8" height="6" fill="url(#B)" stroke="#00ff00" stroke-width="3" stroke-dasharray="2 3" stroke-dashoffset="1" stroke-linecap="round" stroke-linejoin="round" fill-rule="evenodd" opacity="0.5"/></svg>`,
	`<svg viewBox="0 0 12 8">` + drawDefs + `<path d="M1 1L9 2 5 7M3 3L8 8" fill="none" stroke="url(#L)" stroke-linecap="square" stroke-miterlimit="1" transform="rotate(12)" mask="url(#m1)"/></svg>`,
	`<svg viewBox="0 0 12 8">` + drawDefs + `<circle cx="5" cy="4" r="3" fill="url(#R)" mask="url(#m3)"/><path d="M2 2" fill="none"/></svg>`,
	`<svg viewBox="0 0 12 8"><path d="M2 2L9 3" fill="none"/><path d="M0 0" stroke="red" stroke-dasharray="1 2"/></svg>`,
	`<svg viewBox="0 0 12 8"></svg>`,
}

// drawing on a used context against drawing on a fresh context with the same picture
func runC23Used(shapes int) func(x *X) {
	return func(x *X) {
		b := x.Choose(3)
		k := x.Choose(len(backDocs))
		var bo []renderer.RenderOption
		bt := ""
		if x.Bool() {
			bo, bt = []renderer.RenderOption{renderer.Target(3, 2, 18, 15), renderer.Opacity(0.5)}, "with options "
		}
		d := x.drawing(shapes, true)
		prev := x.desc
		x.Desc(func() string { return bt + backDocs[k] + "\nthen " + prev() })
		used := newCanvas(b, picW, picH)
		back := x.mustParse(backDocs[k])
		x.Call("drawing with "+backendNames[b], func() { used.draw(back, bo...) })
		other := freshOn(b, used.img)
		x.Call("drawing with "+backendNames[b], func() { used.draw(d.s, d.opts...) })
		x.Call("drawing with "+backendNames[b], func() { other.draw(d.s, d.opts...) })
		if used.hash() != other.hash() {
			x.Failf("%s: what was drawn before influences how the document is drawn", backendNames[b])
		}
		x.OutcomeH(used.hash())
	}
}

// whole documents with use, gradients, masks: histories of draws
func runC23History(n, nt int) func(x *X) {
	return func(x *X) {
		m := n
		if x.Thorough {
			m = nt
		}
		texts := []string{mutantDoc, backDocs[0], backDocs[2], `<svg viewBox="0 0 12 8">` + drawDefs + `<defs><g id="u"><rect width="5" height="4" fill="url(#B)"/><rect x="4" width="3" height="3" fill="url(#B)" stroke="url(#L)"/></g></defs><use href="#u"/><use href="#u" x="4" y="3" opacity=".5"/></svg>`}
		docs := make([]*svg.Svg, len(texts))
		dumps := make([]string, len(texts))
		for i, t := range texts {
			p := x.parse(t, svg.IgnoreErrorMode)
			if p.err != nil {
				x.Failf("parsing failed: %v", p.err)
			}
			docs[i] = p.s
			dumps[i] = dump(p.s)
		}
		hist := ""
		x.Desc(func() string { return hist })
		for i := 0; i < m; i++ {
			k, b := x.Choose(len(texts)), x.Choose(3)
			var opts []renderer.RenderOption
			ot := ""
			if x.Bool() {
				opts, ot = []renderer.RenderOption{renderer.Target(1, 2, 25, 15), renderer.Opacity(0.5)}, "o"
			}
			hist += fmt.Sprintf("document %d with %s %s; ", k, backendNames[b], ot)
			h := x.picture(docs[k], b, opts...)
			for j := range docs {
				x.unchanged(dumps[j], docs[j], "drawing "+hist)
			}
			key := fmt.Sprint("h", k, b, ot)
			f, ok := freshCache[key]
			if !ok {
				q := x.parse(texts[k], svg.IgnoreErrorMode)
				f = x.picture(q.s, b, opts...)
				freshCache[key] = f
			}
			if f != h {
				x.Failf("after %s: the picture differs from that of a fresh copy", hist)
			}
			x.State(hist)
		}
	}
}

// gradients with every list of stops up to a length: drawn twice by every renderer
func runC23Stops(n, nt int) func(x *X) {
	return func(x *X) {
		m := n
		if x.Thorough {
			m = nt
		}
		g := `<linearGradient id="g"`
		end := `</linearGradient>`
		if x.Bool() {
			g, end = `<radialGradient id="g"`, `</radialGradient>`
		}
		if x.Bool() {
			g += ` gradientUnits="userSpaceOnUse"`
			if end[2] == 'l' {
				g += ` x1="1" x2="8" y2="5"`
			} else {
				g += ` cx="5" cy="4" r="4"`
			}
		}
		g += ">"
		k := x.Choose(m + 1)
		for i := 0; i < k; i++ {
			g += fmt.Sprintf(`<stop offset="%s" stop-color="%s" stop-opacity="%s"/>`, x.Pick("0", "0.6", "1", "1.5", "-0.5"), []string{"#ff0000", "#00ff00", "#0000ff"}[i%3], x.Pick("1", "0.5", "3", "-1"))
		}
		text := `<svg viewBox="0 0 12 8">` + g + end + `<rect x="1" y="1" width="7" height="5" fill="url(#g)" stroke="url(#g)"/><circle cx="14" cy="9" r="5" stroke="url(#g)"/></svg>`
		x.Desc(func() string { return text })
		s := x.mustParse(text)
		before := dump(s)
		b := x.Choose(3)
		h := x.picture(s, b)
		x.unchanged(before, s, "drawing with "+backendNames[b])
		if x.picture(s, b) != h {
			x.Failf("%s: the second drawing differs", backendNames[b])
		}
		c := x.picture(s, b, renderer.Opacity(0.5), renderer.Target(2, 1, 20, 15))
		x.unchanged(before, s, "drawing with "+backendNames[b])
		if x.picture(s, b) != h {
			x.Failf("%s: the drawing after one with options differs", backendNames[b])
		}
		x.State(text, backendNames[b])
		x.OutcomeH(h ^ c)
	}
}

func init() {
	register(&Property{ID: "C23", Rule: "each execution draws documents with the real renderers on real contexts; a deep dump of the document is compared before and after, pictures are compared bit by bit with those of freshly parsed copies, of the paths drawn one by one, and of fresh contexts",
		Assumptions: []string{"concurrent draws are decided in C16"},
		Drivers: []*Driver{
			{Name: "draws", Quick: 2, Thorough: 3, Run: runC23Draws(2, 2), Note: "2 shapes, <= 2 (3) deviations, all pairs of renderers with and without options"},
			{Name: "draws3", Quick: 1, Thorough: 2, Run: runC23Draws(3, 3), Note: "3 shapes, <= 1 (2) deviations, all triples of renderers"},
			{Name: "split2", Quick: 2, Thorough: 3, Run: runC23Split(2), Note: "2 shapes, <= 2 (3) deviations, drawn one by one"},
			{Name: "split3", Quick: 2, Thorough: 3, Run: runC23Split(3), Note: "3 shapes, <= 2 (3) deviations, drawn one by one"},
			{Name: "used", Quick: 2, Thorough: 2, Run: runC23Used(1), Note: "5 documents drawn before, with or without options, then 1 shape with <= 2 deviations"},
			{Name: "used2", Quick: 1, Thorough: 2, Run: runC23Used(2), Note: "5 documents drawn before, then 2 shapes with <= 1 (2) deviations"},
			{Name: "stops", Quick: -1, Thorough: -1, Run: runC23Stops(2, 3), Note: "all lists of <= 2 (3) stops of 5 offsets and 4 opacities, linear and radial, both units, filled and stroked, drawn three times by each renderer"},
			{Name: "history", Quick: -1, Thorough: -1, Run: runC23History(3, 4), Note: "all sequences of 3 (4) draws of 4 documents with 3 renderers with and without options"},
		}})
}

package main

import (
	"fmt"
	"math"
	"strings"

	"mc/model"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"

	"github.com/fogleman/gg"
	"github.com/srwiley/rasterx"
)

// optDraw is a list of options with what it has to mean.
type optDraw struct {
	opts    []renderer.RenderOption
	target  *rect
	opacity float64
	text    string
}

func (o *optDraw) add(k int, targets []rect, opacities []float64) {
	if k < len(targets) {
		r := targets[k]
		o.opts = append(o.opts, renderer.Target(r.X, r.Y, r.W, r.H))
		o.target = &r
		o.text += fmt.Sprint(" target", r)
		return
	}
	v := opacities[k-len(targets)]
	o.opts = append(o.opts, renderer.Opacity(v))
	o.opacity = v
	o.text += fmt.Sprint(" opacity ", v)
}

func (o *optDraw) on(text string, s *svg.Svg) *drawing {
	d := &drawing{text: text, s: s, opts: o.opts, target: model.I, opacity: o.opacity, optText: o.text}
	if o.target != nil {
		d.target = targetMap(s.ViewBox, *o.target)
	}
	return d
}

// checkOptions checks what renderer.Options computes.
func (x *X) checkOptions(o *optDraw, d *drawing) {
	var r *renderer.RenderOptions
	x.Call("Options", func() { r = renderer.Options(d.s, o.opts...) })
	if math.Abs(r.Opacity-o.opacity) > 1e-9 {
		x.Failf("opacity %v instead of %v", r.Opacity, o.opacity)
	}
	if e := cmpMat(mat(r.Target), d.target, true); e != "" {
		x.Failf("target: %s", e)
	}
	if o.target != nil {
		// corners onto corners
		vb := d.s.ViewBox
		for i := 0; i < 4; i++ {
			fx, fy := float64(i&1), float64(i>>1)
			px, py := r.Target.Transform(vb.X+fx*vb.W, vb.Y+fy*vb.H)
			wx, wy := o.target.X+fx*o.target.W, o.target.Y+fy*o.target.H
			if vb.W == 0 {
				wx = o.target.X
			}
			if vb.H == 0 {
				wy = o.target.Y
			}
			if !nearF(px, wx, 1e-9) || !nearF(py, wy, 1e-9) {
				x.Failf("viewBox corner %d goes to (%v,%v) instead of (%v,%v)", i, px, py, wx, wy)
			}
		}
	}
}

// pens are one context of each backend, used for several draws.
type pens struct {
	d2   *recGC
	rec  *recScanner
	rx   *rasterx.Dasher
	draw [3]int
}

func newPens() *pens {
	p := &pens{d2: newRecGC()}
	p.rec, p.rx = newRecDasher()
	return p
}

func (x *X) drawWith(p *pens, backend int, d *drawing) {
	switch backend {
	case 0:
		x.checkD2(p.d2, len(p.d2.events), d)
	case 1:
		x.checkGG(gg.NewContext(ggW, ggH), d, 1)
	case 2:
		x.checkScans(p.rec, p.rx, d)
	}
}

var optRoots = []string{`viewBox="0 0 12 8"`, `viewBox="-3 2 12 8"`, `viewBox="1 1 6 16"`, `viewBox="10,-5,0.5,300"`, `width="12" height="8"`, `width="2cm" height="8" viewBox="0 0 24 4"`, `viewBox="0 0 0 8"`, `viewBox="0 0 12 0"`}

const optBody = `><mask id="k"><rect x="1" y="1" width="6" height="4" fill="white"/></mask><rect x="1" y="1" width="7" height="5" fill="#102030" stroke="#a0b0c0" stroke-width="1" opacity="0.5"/><g transform="rotate(20) scale(1.5)"><path d="M2 1L8 2 5 4z" fill="#ff0000" fill-opacity="0.75" mask="url(#k)"/><path d="M0 0L7 4" fill="none" stroke="#00ff00" stroke-dasharray="2 1"/></g></svg>`

// optBodies adds bodies with gradients, dashes, caps and masks
var optBodies = []string{optBody,
	">" + drawDefs + `<path d="M1 1L9 2 5 7z" fill="#456789" stroke="url(#L)" stroke-width="2"/><rect x="3" y="2" width="5" height="4" fill="none" stroke="url(#B)" stroke-width="10%" stroke-opacity="0.5" transform="scale(1.5 1)"/><path d="M2 2L8 5" stroke="url(#R)" stroke-dasharray="3 1" stroke-dashoffset="1"/></svg>`,
	">" + drawDefs + `<path d="M1 1L9 2 5 7z" fill="url(#L)" fill-opacity="0.75"/><rect x="3" y="2" width="5" height="4" fill="url(#B)" transform="scale(1.5 1)"/><circle cx="5" cy="4" r="3" fill="url(#U)" stroke="#000000" opacity="0.5"/></svg>`,
	">" + drawDefs + `<path d="M1 1h6v6h-6zM3 3h2v2h-2z" fill="#123456" fill-rule="evenodd" stroke="#654321" stroke-linejoin="round" stroke-linecap="round" stroke-leadlinecap="butt" stroke-miterlimit="2" stroke-width="1.5" mask="url(#m2)"/><g mask="url(#m1)"><path d="M1 6L4 1M6 1L9 6 8 1z" fill="none" stroke="#ff00ff" stroke-dasharray="1 2 3" stroke-dashoffset="-1" mask="url(#m3)"/></g></svg>`,
}

// all targets and opacities on all roots and renderers
func runC22Grid(x *X) {
	targets := []rect{{0, 0, 12, 8}, {0, 0, 24, 16}, {5, 3, 6, 20}, {-4, 1, 30, 9.5}, {7, 9, 1, 1}, {0.25, 0.5, 11.3, 7.7}, {0, 0, 0, 5}, {40, 24, -40, 24}, {0, 10, 0.001, 12}}
	opacities := []float64{1, 0.5, 0, 0.1}
	o := &optDraw{opacity: 1}
	if k := x.Choose(len(targets) + 1); k > 0 {
		o.add(k-1, targets, opacities)
	}
	if k := x.Choose(len(opacities) + 1); k > 0 {
		o.add(len(targets)+k-1, targets, opacities)
	}
	text := "<svg " + optRoots[x.Choose(len(optRoots))] + x.Pick("", ` transform="translate(2 1)"`) + x.Pick(optBodies...)
	if o.target != nil && math.Abs(o.target.W) < 0.1 && strings.Contains(text, `"url(#B)"`) {
		x.Skip() // gradients over no width are up to rounding
	}
	x.Desc(func() string { return o.text + " " + text })
	p := x.parse(text, svg.StrictErrorMode)
	if p.err != nil {
		x.Failf("parsing failed: %v", p.err)
	}
	d := o.on(text, p.s)
	x.State(o.text, text)
	x.checkOptions(o, d)
	x.drawWith(newPens(), x.Choose(3), d)
}

var seqTargets = []rect{{0, 0, 24, 16}, {5, 3, 6, 20}}
var seqOpacities = []float64{0.5, 0.2, 1}

// every list of options
func runC22Lists(n, nt int) func(x *X) {
	return func(x *X) {
		m := n
		if x.Thorough {
			m = nt
		}
		o := &optDraw{opacity: 1}
		for i := 0; i < m; i++ {
			k := x.Choose(6)
			if k == 0 {
				break
			}
			o.add(k-1, seqTargets, seqOpacities)
		}
		text := "<svg " + x.Pick(optRoots[:3]...) + optBodies[x.Dev(len(optBodies))]
		x.Desc(func() string { return o.text + " " + text })
		p := x.parse(text, svg.StrictErrorMode)
		if p.err != nil {
			x.Failf("parsing failed: %v", p.err)
		}
		d := o.on(text, p.s)
		x.State(o.text, text)
		x.checkOptions(o, d)
		x.drawWith(newPens(), x.Choose(3), d)
	}
}

// histories of draws with options, on the same contexts, of two documents
func runC22History(n, nt int) func(x *X) {
	return func(x *X) {
		m := n
		if x.Thorough {
			m = nt
		}
		texts := []string{"<svg " + optRoots[0] + optBody, "<svg " + optRoots[1] + optBodies[1]}
		var docs []*svg.Svg
		for _, t := range texts {
			p := x.parse(t, svg.StrictErrorMode)
			if p.err != nil {
				x.Failf("parsing failed: %v", p.err)
			}
			docs = append(docs, p.s)
		}
		// the same option values are handed to several draws
		shared := []*optDraw{{opacity: 1}, {opacity: 1}, {opacity: 1}, {opacity: 1}}
		shared[1].add(0, seqTargets, seqOpacities)
		shared[2].add(2, seqTargets, seqOpacities)
		shared[3].add(1, seqTargets, seqOpacities)
		shared[3].add(3, seqTargets, seqOpacities)
		ps := newPens()
		hist := ""
		x.Desc(func() string { return hist })
		for i := 0; i < m; i++ {
			o := shared[x.Choose(len(shared))]
			k := x.Choose(2)
			b := x.Choose(3)
			hist += fmt.Sprintf("draw document %d with %s, options%s; ", k, backendNames[b], o.text)
			x.drawWith(ps, b, o.on(texts[k], docs[k]))
			x.State(hist)
		}
	}
}

func init() {
	register(&Property{ID: "C22", Rule: "each execution draws with one list of options (or a history of lists) on each renderer and compares all paints with the mapping of the viewBox onto the rectangle and the multiplied opacity; the computed options are compared as well",
		Assumptions: []string{"a viewBox side of zero is not scaled"},
		Drivers: []*Driver{
			{Name: "grid", Quick: -1, Thorough: -1, Run: runC22Grid, Note: "10 targets x 5 opacities x 8 roots x 4 bodies x root transform x 3 renderers"},
			{Name: "lists", Quick: 1, Thorough: 1, Run: runC22Lists(5, 6), Note: "all lists of <= 5 (6) of 2 targets and 3 opacities x 3 viewBoxes x 3 renderers"},
			{Name: "history", Quick: -1, Thorough: -1, Run: runC22History(3, 4), Note: "all sequences of 3 (4) draws of 2 documents with 4 shared option lists on 3 renderers"},
		}})
}

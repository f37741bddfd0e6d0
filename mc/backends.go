package main

import (
	"fmt"
	"image"
	"image/color"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
	svgdraw2d "github.com/lafriks/go-svg/renderer/draw2d"
	svggg "github.com/lafriks/go-svg/renderer/gg"
	svgrasterx "github.com/lafriks/go-svg/renderer/rasterx"

	"github.com/fogleman/gg"
	"github.com/llgcode/draw2d/draw2dimg"
	"github.com/srwiley/rasterx"
)

const nBackends = 3

var backendNames = [nBackends]string{"draw2d", "gg", "rasterx"}

// canvas is one drawing context of one of the backends.
type canvas struct {
	kind int
	img  *image.RGBA
	draw func(s *svg.Svg, opts ...renderer.RenderOption)
	gg   *gg.Context
}

func newCanvas(kind, w, h int) *canvas {
	c := &canvas{kind: kind, img: image.NewRGBA(image.Rect(0, 0, w, h))}
	switch kind {
	case 0:
		gc := draw2dimg.NewGraphicContext(c.img)
		c.draw = func(s *svg.Svg, opts ...renderer.RenderOption) { svgdraw2d.Draw(gc, s, opts...) }
	case 1:
		gc := gg.NewContextForRGBA(c.img)
		c.gg = gc
		c.draw = func(s *svg.Svg, opts ...renderer.RenderOption) {
			if err := svggg.Draw(gc, s, opts...); err != nil {
				panic(fmt.Sprint("gg: ", err))
			}
		}
	case 2:
		d := rasterx.NewDasher(w, h, rasterx.NewScannerGV(w, h, c.img, c.img.Bounds()))
		c.draw = func(s *svg.Svg, opts ...renderer.RenderOption) { svgrasterx.Draw(d, s, opts...) }
	}
	return c
}

func (c *canvas) hash() uint64 { return hashStr(string(c.img.Pix)) }

// painted tells whether anything was drawn.
func (c *canvas) painted() bool {
	for _, b := range c.img.Pix {
		if b != 0 {
			return true
		}
	}
	return false
}

func (c *canvas) at(x, y int) color.RGBA { return c.img.RGBAAt(x, y) }

// drawAll draws the document with every backend.
func (x *X) drawAll(s *svg.Svg, w, h int) (hs [nBackends]uint64) {
	for k := 0; k < nBackends; k++ {
		c := newCanvas(k, w, h)
		x.Call("drawing with "+backendNames[k], func() { c.draw(s) })
		hs[k] = c.hash()
	}
	return
}

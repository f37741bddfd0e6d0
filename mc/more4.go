package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"strings"

	"mc/model"

	svg "github.com/lafriks/go-svg"
)

// ---- C08: lists that change nothing ----

func runC08Empty(x *X) {
	nothing := []string{"", " ", "\n\t ", "translate(0)", "translate(0,0)", "scale(1)", "scale(1 1)", "rotate(0)", "rotate(0 5 6)", "rotate(360)", "skewX(0)", "skewY(0)", "matrix(1 0 0 1 0 0)"}
	set := func(n *model.Node, t string) {
		switch x.Choose(3) {
		case 0:
			n.Set("transform", t)
		case 1:
			n.Set("style", "transform:"+t)
		case 2:
			n.Set("fill", "red").Set("transform", t).Set("stroke", "blue")
		}
	}
	outer := transformFns[x.Choose(6)]
	inner := transformFns[x.Choose(3)]
	e := nothing[x.Choose(len(nothing))]
	a, b := model.E("g"), model.E([]string{"g", "svg", "unknown"}[x.Choose(3)])
	sh := model.E("path", "d", "M1 2L30 4 5 20z")
	a.Add(b.Add(sh, model.E("line", "x2", "3")), model.E("line", "x2", "4"))
	switch x.Choose(4) {
	case 0:
		set(a, outer)
		set(b, e)
	case 1:
		set(a, outer)
		set(sh, e)
	case 2:
		set(a, outer)
		set(b, e)
		set(sh, inner)
	case 3:
		set(a, e)
		set(b, outer)
		set(sh, e)
	}
	x.conform(svgRoot(a, model.E("line", "x2", "5")), svg.ErrorMode(x.Choose(2)))
}

// ---- C23: every small path ----

func (x *X) checkKept(d *drawing) {
	before := dump(d.s)
	for b := range backendNames {
		h := x.picture(d.s, b, d.opts...)
		x.unchanged(before, d.s, "drawing with "+backendNames[b])
		if x.picture(d.s, b, d.opts...) != h {
			x.Failf("%s: the second drawing differs", backendNames[b])
		}
		x.OutcomeH(h)
	}
}

// ---- C12: titles and descriptions inside of each other ----

func runC12Within(x *X) {
	txt := func() *model.Node { return model.T(x.Pick("", "a", " ", "b c")) }
	el := func(name string) *model.Node { return model.E(name).Add(txt()) }
	names := []string{"title", "desc"}
	k := x.Choose(2)
	outer, inner := names[k], names[1-k]
	o := el(outer)
	n := 1 + x.Choose(2)
	for i := 0; i < n; i++ {
		in := el(inner)
		if x.Bool() {
			in = model.E("unknown").Add(in, model.T("u"))
		}
		o.Add(in, txt())
	}
	root := svgRoot(model.T("x"))
	if x.Bool() {
		root.Add(el(inner))
	}
	var at = root
	switch x.Choose(3) {
	case 1:
		at = model.E("g")
		root.Add(at)
	case 2:
		at = model.E("mask", "id", "m")
		root.Add(at)
	}
	at.Add(o, model.T("y"), model.E("line", "x2", "3"))
	root.Add(model.T("z"))
	switch x.Choose(4) {
	case 1:
		root.Add(el(outer))
	case 2:
		root.Add(el(inner), model.T("w"))
	case 3:
		root.Add(el(outer), model.T("w"), el(inner), model.T("v"))
	}
	x.conform(root, svg.IgnoreErrorMode)
}

// ---- C15: failing readers that can do more than read ----

type fullReader struct{ planReader }

func (r *fullReader) WriteTo(w io.Writer) (int64, error) {
	b := make([]byte, 64)
	var sum int64
	for {
		n, err := r.Read(b)
		m, werr := w.Write(b[:n])
		sum += int64(m)
		if werr != nil {
			return sum, werr
		}
		if err == io.EOF {
			return sum, nil
		}
		if err != nil {
			return sum, err
		}
	}
}
func (r *fullReader) Len() int { return len(r.text) - r.pos }
func (r *fullReader) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += int64(r.pos)
	case io.SeekEnd:
		off += int64(len(r.text))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	r.pos = min(int(off), len(r.text))
	return off, nil
}
func (r *fullReader) Size() int64  { return int64(len(r.text)) }
func (r *fullReader) Close() error { return errors.New("closing failed") }
func (r *fullReader) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(r.text)) {
		return 0, r.end()
	}
	n := copy(p, r.text[off:])
	if n < len(p) {
		return n, r.end()
	}
	return n, nil
}
func (r *fullReader) end() error {
	if r.fail != nil {
		return r.fail
	}
	return io.EOF
}

func runC15Wrapped(x *X) {
	d := inputDocs[x.Choose(len(inputDocs))]
	if !d.valid {
		x.Skip()
	}
	fails := x.Bool()
	at := len(d.text)
	skip := 0
	r := planReader{text: d.text}
	if fails {
		at = x.Choose(len(d.text) + 1)
		r = planReader{text: d.text[:at], fail: errBroken, eofWith: x.Bool()}
	} else {
		r.eofWith = x.Bool()
	}
	kind := x.Choose(8)
	var rd io.Reader = &r
	switch kind {
	case 0:
		rd = bufio.NewReader(&r)
	case 1:
		rd = bufio.NewReaderSize(&r, 16)
	case 2:
		skip = 1 + x.Choose(3)
		f := &fullReader{r}
		f.text, f.pos = strings.Repeat("<", skip)+f.text, skip
		rd = f
	case 3:
		rd = &fullReader{r}
	case 4:
		rd = io.TeeReader(&r, io.Discard)
	case 5:
		rd = io.MultiReader(strings.NewReader(""), &r)
	case 6:
		rd = io.LimitReader(&r, 1<<20)
	case 7:
		rd = io.NopCloser(&fullReader{r})
	}
	x.Desc(func() string {
		return fmt.Sprintf("reader of kind %d, skip %d, failing %v after %d bytes of %q", kind, skip, fails, at, d.text)
	})
	x.State(kind, skip, fails, at, d.text)
	if !fails {
		x.deliver(rd, d.text, svg.IgnoreErrorMode)
		return
	}
	p := x.parseFrom(rd, svg.IgnoreErrorMode)
	if p.err == nil {
		x.Failf("a failing read went unnoticed")
	}
	if !errors.Is(p.err, errBroken) {
		x.Failf("the read failed with %q, Parse reported %q", errBroken, p.err)
	}
	x.Outcome(p.err.Error())
}

func init() {
	addDrivers("C12", &Driver{Name: "within", Quick: -1, Thorough: -1, Run: runC12Within, Note: "descriptions in titles and titles in descriptions, 1..2 of them, with 4 texts at each place, in 3 contexts"})
	addDrivers("C15", &Driver{Name: "wrapped", Quick: -1, Thorough: -1, Run: runC15Wrapped, Note: "7 kinds of readers that can also write, seek, read bytes, close; whole and failing at every offset"})
	addDrivers("C08", &Driver{Name: "empty", Quick: -1, Thorough: -1, Run: runC08Empty, Note: "13 lists that change nothing below and above others, on 3 elements, in 3 spellings"})
	addDrivers("C23", &Driver{Name: "geom1", Quick: 1, Thorough: 2, Run: runGeometry(1, 1, func(x *X, d *drawing) { x.checkKept(d) }), Note: "all paths of 1 command M, L, Q, C, z over 9 points, drawn twice by each renderer"},
		&Driver{Name: "geom2", Quick: 0, Thorough: 1, Run: runGeometry(2, 2, func(x *X, d *drawing) { x.checkKept(d) }), Note: "all paths of 2 commands over 4 points, drawn twice by each renderer"})
}

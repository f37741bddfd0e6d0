package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"

	svg "github.com/lafriks/go-svg"
)

type inputDoc struct {
	text  string
	valid bool // parses without error in ignore mode
	root  int  // offset behind the root element
}

var inputDocs = []inputDoc{
	{text: mutantDoc, valid: true},
	{text: "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>\n<!DOCTYPE svg>\n<svg width=\"3cm\" viewBox='0 0 9 5'>\r\n<title>a\xe9&amp;<![CDATA[<b>]]>c<!-- d -->e&#8364;</title><rect width='4' height='50%' rx='1'/></svg>\n<!-- end -->\n", valid: true},
	{text: "<svg viewBox=\"0,0,9,5\" xmlns=\"http://www.w3.org/2000/svg\"><desc>d\u00e9\u20ac\U0001f600</desc><path d=\"M1.5e0-2l.5.5\tz\" stroke='#0f8'/><circle r=\"2\"></circle></svg>", valid: true},
	{text: "<svg viewBox='0 0 9 5'><blink/><path d='M1 1x3L2 2' stroke-linecap='wavy'/><line x2='3'/></svg>", valid: true},
	{text: "<svg viewBox='0 0 9 5'><line x2='3'/><rect width='4q' height='2'/><line x2='4'/></svg>"},
	{text: "<svg viewBox='0 0 9 5'><line x2='3'/><g><line x2='3'/></svg>"},
	{text: "<svg viewBox='0 0 9 5'><line x2='3'/></svg><g>"},
	{text: " \n<!-- no element -->\n"},
	{text: ""},
}

func init() {
	for i := range inputDocs {
		d := &inputDocs[i]
		d.root = strings.LastIndex(d.text, "</svg>") + len("</svg>")
	}
}

// eofLike is an error of its own that claims to be the end of the input, text and all.
type eofLike struct{}

func (eofLike) Error() string        { return "EOF" }
func (eofLike) Is(target error) bool { return target == io.EOF }

var errBroken = errors.New("the line was cut")

// planReader delivers text in the given pieces.
type planReader struct {
	text    string
	cuts    []int // ascending offsets at which a read ends
	empty   int   // empty reads before each piece
	eofWith bool  // the end (or failure) comes with the last bytes
	fail    error // nil: io.EOF
	pos     int
	blank   int
	reads   int
}

func (r *planReader) Read(p []byte) (int, error) {
	r.reads++
	end := r.fail
	if end == nil {
		end = io.EOF
	}
	if r.pos >= len(r.text) {
		return 0, end
	}
	if r.blank < r.empty {
		r.blank++
		return 0, nil
	}
	r.blank = 0
	stop := len(r.text)
	for _, c := range r.cuts {
		if c > r.pos {
			stop = c
			break
		}
	}
	n := copy(p, r.text[r.pos:stop])
	r.pos += n
	if r.pos == len(r.text) && r.eofWith {
		return n, end
	}
	return n, nil
}

// byteReader adds ReadByte to a reader.
type byteReader struct{ planReader }

func (r *byteReader) ReadByte() (byte, error) {
	var b [1]byte
	for {
		n, err := r.Read(b[:])
		if n > 0 {
			if err != nil {
				r.eofWith = false
			}
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

var wholeCache = map[string]string{}

func (x *X) whole(text string, mode svg.ErrorMode) string {
	k := fmt.Sprint(int(mode), text)
	r, ok := wholeCache[k]
	if !ok {
		r = result(x.parse(text, mode))
		if len(wholeCache) < 10000 {
			wholeCache[k] = r
		}
	}
	return r
}

func (x *X) parseFrom(r io.Reader, mode svg.ErrorMode) (p parsed) {
	x.Call("Parse", func() { p.s, p.err = svg.Parse(r, mode) })
	if p.err == nil && p.s == nil {
		x.Failf("Parse returned neither a document nor an error")
	}
	return
}

// deliver compares a delivery with the whole text at once.
func (x *X) deliver(r io.Reader, text string, mode svg.ErrorMode) {
	want := x.whole(text, mode)
	got := result(x.parseFrom(r, mode))
	if want != got {
		x.Failf("the result depends on how the input is delivered: %s", diffAt(want, got))
	}
	x.OutcomeH(hashStr(got))
}

func runC15Splits(n, nt int) func(x *X) {
	return func(x *X) {
		m := n
		if x.Thorough {
			m = nt
		}
		d := inputDocs[x.Choose(len(inputDocs))]
		if m > 2 && len(d.text) > 260 {
			x.Skip()
		}
		mode := svg.IgnoreErrorMode
		if m == 1 {
			mode = svg.ErrorMode([]int{int(svg.IgnoreErrorMode), int(svg.StrictErrorMode)}[x.Choose(2)])
		}
		r := &planReader{text: d.text}
		lo := 0
		for i := 0; i < m; i++ {
			c := x.Choose(len(d.text) - lo + 1)
			if c == 0 {
				break
			}
			lo += c
			r.cuts = append(r.cuts, lo)
		}
		if m == 1 {
			r.empty = x.Choose(3)
			r.eofWith = x.Bool()
		} else {
			k := x.Choose(2)
			r.empty, r.eofWith = k, k == 1
		}
		x.Desc(func() string {
			return fmt.Sprintf("reads ending at %v, %d empty reads, end with data %v of %q", r.cuts, r.empty, r.eofWith, d.text)
		})
		x.State(d.text, r.cuts, r.empty, r.eofWith, mode)
		x.deliver(r, d.text, mode)
	}
}

// chunks of every fixed size and all kinds of readers
func runC15Readers(x *X) {
	d := inputDocs[x.Choose(len(inputDocs))]
	mode := svg.ErrorMode(x.Choose(3))
	if mode == svg.WarnErrorMode {
		log.SetOutput(io.Discard)
	}
	kind := x.Choose(8)
	var r io.Reader
	size := 0
	switch kind {
	case 0, 1:
		size = 1 + x.Choose(40)
		var cuts []int
		for i := size; i < len(d.text); i += size {
			cuts = append(cuts, i)
		}
		if kind == 0 {
			r = &planReader{text: d.text, cuts: cuts, empty: x.Choose(3), eofWith: x.Bool()}
		} else {
			r = &byteReader{planReader{text: d.text, cuts: cuts}}
		}
	case 2:
		r = bytes.NewBufferString(d.text)
	case 3:
		r = bufio.NewReaderSize(strings.NewReader(d.text), 16)
	case 4:
		pr, pw := io.Pipe()
		go func() {
			for i := 0; i < len(d.text); i += 7 {
				j := i + 7
				if j > len(d.text) {
					j = len(d.text)
				}
				if _, err := pw.Write([]byte(d.text[i:j])); err != nil {
					return
				}
			}
			pw.Close()
		}()
		defer pr.Close()
		r = pr
	case 5:
		rest := strings.NewReader("junk<" + d.text)
		rest.Seek(5, io.SeekStart)
		r = rest
	case 6:
		r = io.LimitReader(strings.NewReader(d.text+"<junk"), int64(len(d.text)))
	case 7:
		r = io.MultiReader(strings.NewReader(""), strings.NewReader(d.text), strings.NewReader(""))
	}
	x.Desc(func() string { return fmt.Sprintf("reader %d chunk %d mode %d of %q", kind, size, mode, d.text) })
	x.State(kind, size, d.text, mode)
	x.deliver(r, d.text, mode)
}

// a failure at every offset
func runC15Fault(x *X) {
	d := inputDocs[x.Choose(len(inputDocs))]
	if !d.valid {
		x.Skip()
	}
	at := x.Choose(len(d.text) + 1)
	fault := []error{errBroken, io.ErrUnexpectedEOF, os.ErrClosed, io.ErrNoProgress, &os.PathError{Op: "read", Path: "x", Err: errBroken}, fmt.Errorf("connection lost: %w", io.EOF), eofLike{}}[x.Choose(7)]
	r := planReader{text: d.text[:at], fail: fault, eofWith: x.Bool(), empty: x.Choose(2)}
	switch k := x.Choose(3); k {
	case 1:
		for i := 1; i < at; i++ {
			r.cuts = append(r.cuts, i)
		}
	case 2:
		r.cuts = []int{at / 2}
	}
	var rd io.Reader = &r
	if x.Bool() {
		rd = &byteReader{r}
	}
	x.Desc(func() string {
		return fmt.Sprintf("read error %v after %d bytes (with data %v) of %q", fault, at, r.eofWith, d.text)
	})
	x.State(at, d.text, r.eofWith, r.empty, fault)
	p := x.parseFrom(rd, svg.IgnoreErrorMode)
	if p.err == nil {
		x.Failf("a failing read went unnoticed")
	}
	if !errors.Is(p.err, fault) {
		x.Failf("the read failed with %q, Parse reported %q", fault, p.err)
	}
	x.Outcome(p.err.Error())
}

// every truncation
func runC15Trunc(x *X) {
	d := inputDocs[x.Choose(len(inputDocs))]
	if !d.valid {
		x.Skip()
	}
	at := x.Choose(d.root)
	mode := svg.ErrorMode(x.Choose(3))
	if mode == svg.WarnErrorMode {
		log.SetOutput(io.Discard)
	}
	r := &planReader{text: d.text[:at], eofWith: x.Bool(), empty: x.Choose(2)}
	if x.Bool() {
		for i := 1; i < at; i++ {
			r.cuts = append(r.cuts, i)
		}
	}
	x.Desc(func() string { return fmt.Sprintf("%q", d.text[:at]) })
	x.State(at, d.text, mode)
	if p := x.parseFrom(r, mode); p.err == nil {
		x.Failf("an input cut off inside the root element was accepted")
	} else {
		x.Outcome(p.err.Error())
	}
}

func countFds() int {
	e, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	return len(e)
}

var fileDir string

// every prefix of every document as a file; missing files and directories
func runC15File(x *X) {
	if fileDir == "" {
		d, err := os.MkdirTemp("", "files")
		if err != nil {
			panic(err)
		}
		fileDir = d
	}
	mode := svg.ErrorMode(x.Choose(3))
	if mode == svg.WarnErrorMode {
		log.SetOutput(io.Discard)
	}
	k := x.Choose(len(inputDocs) + 3)
	name := filepath.Join(fileDir, "in.svg")
	text := ""
	missing := false
	switch k {
	case len(inputDocs):
		name, missing = filepath.Join(fileDir, "none.svg"), true
	case len(inputDocs) + 1:
		name, missing = fileDir, true
	case len(inputDocs) + 2:
		name, missing = "", true
	default:
		d := inputDocs[k].text
		text = d[:len(d)-x.Choose(len(d)+1)]
		if x.Bool() {
			name = filepath.Join(fileDir, "sp ace \u00e9%41.txt")
		}
		if err := os.WriteFile(name, []byte(text), 0o600); err != nil {
			panic(err)
		}
	}
	x.Desc(func() string { return fmt.Sprintf("file %q mode %d with %q", name, mode, text) })
	x.State(name, text, mode)
	before := countFds()
	var p parsed
	x.Call("ParseFile", func() { p.s, p.err = svg.ParseFile(name, mode) })
	if n := countFds(); n != before {
		x.Failf("%d files open before, %d after ParseFile", before, n)
	}
	if missing {
		if p.err == nil {
			x.Failf("no error for a file that can not be read")
		}
		x.Outcome(p.err.Error())
		return
	}
	if p.err == nil && p.s == nil {
		x.Failf("ParseFile returned neither a document nor an error")
	}
	want := x.whole(text, mode)
	if got := result(p); got != want {
		x.Failf("ParseFile differs from Parse: %s", diffAt(want, got))
	}
	x.OutcomeH(hashStr(want))
}

func init() {
	register(&Property{ID: "C15", Rule: "each execution is one delivery of a document; the whole outcome (deep dump of the document or error text) is compared with the delivery in one piece, injected read errors must be returned, truncated documents must be errors, ParseFile must leave no descriptor open",
		Assumptions: []string{"delivery in one piece is the reference; its own correctness is C01..C13", "descriptors are counted through /proc/self/fd"},
		Drivers: []*Driver{
			{Name: "split1", Quick: -1, Thorough: -1, Run: runC15Splits(1, 1), Note: "9 documents x every split in two reads x 0..2 empty reads x end with or after data x 2 modes"},
			{Name: "split2", Quick: -1, Thorough: -1, Run: runC15Splits(2, 2), Note: "every split in up to three reads"},
			{Name: "split3", QuickOff: true, Thorough: -1, Run: runC15Splits(3, 3), Note: "every split in up to four reads of the documents up to 260 bytes"},
			{Name: "readers", Quick: -1, Thorough: -1, Run: runC15Readers, Note: "chunk sizes 1..40, with and without ReadByte, 6 reader types x 3 modes"},
			{Name: "fault", Quick: -1, Thorough: -1, Run: runC15Fault, Note: "read error of 7 kinds at every offset of 4 documents, with or after data, 3 chunkings, with and without ReadByte"},
			{Name: "trunc", Quick: -1, Thorough: -1, Run: runC15Trunc, Note: "every truncation inside the root element of 4 documents x 3 modes x chunking"},
			{Name: "file", Quick: -1, Thorough: -1, Run: runC15File, Note: "every prefix of 9 documents through ParseFile x 3 modes; missing file, directory, empty name"},
		}})
}

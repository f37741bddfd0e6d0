package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"mc/yield"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
)

// ---- the calls ----

var sharedTexts = []string{
	// 0: everything
	mutantDoc,
	// 1..3: the same ids with other contents
	`<svg viewBox="0 0 12 8"><defs><linearGradient id="l"><stop stop-color="#ff0000"/><stop offset="1"/></linearGradient><g id="d"><rect width="7" height="5"/></g></defs><mask id="m"><rect width="4" height="4" fill="white"/></mask><g stroke="#123" stroke-dasharray="3 1 2"><use href="#d" fill="url(#l)" mask="url(#m)"/><path d="M1 1L9 2 5 7" stroke-width="2"/></g></svg>`,
	`<svg width="12" height="8"><radialGradient id="l" gradientUnits="userSpaceOnUse" cx="5" cy="4" r="4"><stop stop-color="#00ff00"/><stop offset="1" stop-color="blue"/></radialGradient><defs><g id="d" opacity=".5"><circle cx="4" cy="4" r="3"/></g></defs><use href="#d" x="1" fill="url(#l)"/><use href="#d" stroke="url(#l)"/><line x2="9" y2="5" stroke="red" stroke-linecap="round"/></svg>`,
	`<svg viewBox="0 0 12 8"><rect width="9" height="5"/><path d="M2 2h5q1 3-2 4A2 1 30 1 0 3 6z" stroke="lime" fill-rule="evenodd" transform="rotate(10) translate(1)"/></svg>`,
	// 4: no size; 5..: failures in the middle of things
	`<svg><title>a</title><desc>b</desc><rect width="9" height="50%" fill="url(#l)"/></svg>`,
	`<svg viewBox="0 0 12 8"><g transform="scale(3)" fill="red"><defs><linearGradient id="l"><stop offset="1" stop-color="nocolour"/></linearGradient></defs></g></svg>`,
	`<svg viewBox="0 0 12 8"><mask id="m"><g opacity=".5" transform="rotate(9)"><path d="M1 1L2 2 3"/></g></mask></svg>`,
	`<svg viewBox="0 0 9 5"><title>cut</title><g stroke-dasharray="4"><path d="M1 1l3 3c1 1`,
	`<svg viewBox="0 0 12 8"><defs><g id="q"><use href="#d"/></g></defs><use href="#q"/></svg>`,
	`<svg viewBox="0 0 12 8"><blink><rect width="4" height="3" stroke-linejoin="odd"/></blink><path d="M0 0v4h3" mask="url(#m)"/></svg>`,
	// 10: every kind of element at least twice, in turns
	`<svg viewBox="0 0 12 8"><polygon points="1 2 3 4 9 1" fill="red"/><polyline points="5 6 7 8" stroke="lime"/><path d="M3 1l2 2h3" stroke-dasharray="1 2 3"/><polygon points="4 4 5 6" transform="matrix(1 0 0 2 3 4)"/><polyline points="2 1 8 7 3 3 1 1" stroke-dasharray="4 5"/><path d="M7 7a2 1 3 0 1 1 1t1 2 1 1" fill="#123" transform="translate(2 1) scale(2)"/><rect width="4" height="3" rx="1"/><circle r="3"/><rect x="1" width="2" height="1" fill="none"/><ellipse rx="1" ry="2" stroke="rgb(3,4,5)"/><line x2="3"/><line y2="4" stroke="url(#l)"/></svg>`,
}

type call struct {
	name string
	run  func() string
}

var sharedDocs []*svg.Svg
var sharedDumps []string

// shared parses the documents that several draws share.
func shared() []*svg.Svg {
	if sharedDocs == nil {
		for _, k := range []int{0, 1, 2, 3, 9} {
			s, err := svg.Parse(strings.NewReader(sharedTexts[k]), svg.IgnoreErrorMode)
			if err != nil {
				s = &svg.Svg{}
			}
			sharedDocs = append(sharedDocs, s)
			sharedDumps = append(sharedDumps, dump(s))
		}
	}
	return sharedDocs
}

func parseCall(k int, mode svg.ErrorMode) call {
	return call{fmt.Sprintf("parse %d mode %d", k, mode), func() string {
		s, err := svg.Parse(&chunkReader{text: sharedTexts[k]}, mode)
		if err == nil && s == nil {
			return "neither"
		}
		return result(parsed{s, err})
	}}
}

func drawCall(k, b int, opts bool) call {
	return call{fmt.Sprintf("draw %d with %s options %v", k, backendNames[b], opts), func() string {
		s := shared()[k]
		var o []renderer.RenderOption
		if opts {
			o = []renderer.RenderOption{renderer.Target(1, 2, 25, 15), renderer.Opacity(0.5)}
		}
		c := newCanvas(b, picW, picH)
		c.draw(s, o...)
		return strconv.FormatUint(c.hash(), 16)
	}}
}

// chunkReader delivers a few bytes per read; reads are scheduling points.
type chunkReader struct {
	text string
	pos  int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	yield.Y()
	if r.pos >= len(r.text) {
		return 0, io.EOF
	}
	n := 24
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], r.text[r.pos:])
	r.pos += n
	return n, nil
}

// calls of the small and the full list
var smallCalls, allCalls []call

func init() {
	for k := range sharedTexts {
		for mode := svg.IgnoreErrorMode; mode <= svg.StrictErrorMode; mode++ {
			allCalls = append(allCalls, parseCall(k, mode))
		}
	}
	for k := 0; k < 5; k++ {
		for b := 0; b < nBackends; b++ {
			allCalls = append(allCalls, drawCall(k, b, false), drawCall(k, b, true))
		}
	}
	pick := func(names ...string) {
		for _, n := range names {
			for _, c := range allCalls {
				if c.name == n {
					smallCalls = append(smallCalls, c)
				}
			}
		}
	}
	pick("parse 0 mode 2", "parse 1 mode 2", "parse 2 mode 2", "parse 3 mode 2", "parse 4 mode 0", "parse 5 mode 2", "parse 6 mode 2", "parse 7 mode 2", "parse 8 mode 2", "parse 9 mode 0", "parse 9 mode 2", "parse 10 mode 2",
		"draw 0 with gg options true", "draw 1 with rasterx options false", "draw 1 with draw2d options true", "draw 1 with gg options false", "draw 2 with rasterx options true", "draw 2 with gg options false", "draw 2 with draw2d options false", "draw 3 with rasterx options false")
	if len(smallCalls) != 20 {
		panic("harness: small calls")
	}
}

// safely runs a call; what it panics with is its result.
func (c call) safely() (r string) {
	defer func() {
		if e := recover(); e != nil {
			r = fmt.Sprint("panic: ", e)
		}
	}()
	return c.run()
}

// ---- what a call gives alone: computed in a process of its own ----

var soloCache = map[string]string{}

func solo(c call) string {
	if r, ok := soloCache[c.name]; ok {
		return r
	}
	file := filepath.Join(os.TempDir(), fmt.Sprintf("solo-%x", sha256.Sum256([]byte(c.name))))
	b, err := os.ReadFile(file)
	if err != nil {
		exe, _ := os.Executable()
		cmd := exec.Command(exe, "solo", c.name)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
		b, err = cmd.Output()
		if err != nil {
			b = []byte("process died: " + err.Error())
		} else {
			tmp := fmt.Sprintf("%s.%d", file, os.Getpid())
			if os.WriteFile(tmp, b, 0o600) == nil {
				_ = os.Rename(tmp, file)
			}
		}
	}
	soloCache[c.name] = string(b)
	return string(b)
}

var allCallsExtra []call // calls of drivers of their own

func findCall(name string) *call {
	for i := range allCallsExtra {
		if allCallsExtra[i].name == name {
			return &allCallsExtra[i]
		}
	}
	for i := range allCalls {
		if allCalls[i].name == name {
			return &allCalls[i]
		}
	}
	return nil
}

func soloMain(name string) int {
	log.SetOutput(io.Discard)
	c := findCall(name)
	if c == nil {
		return 2
	}
	fmt.Print(c.safely())
	return 0
}

// ---- package values ----

var packageDump = dumpPackage()

func dumpPackage() string {
	return dump(svg.DefaultStyle) + dump(svg.Identity)
}

func (x *X) packageValues(when string) {
	if d := dumpPackage(); d != packageDump {
		x.Failf("%s: the package's default style or identity matrix changed: %s", when, diffAt(packageDump, d))
	}
	for i, s := range shared() {
		if d := dump(s); d != sharedDumps[i] {
			x.Failf("%s: a document parsed before changed: %s", when, diffAt(sharedDumps[i], d))
		}
	}
}

// ---- all sequences of calls ----

func runC16Seq(list []call, n, nt int) func(x *X) {
	return func(x *X) {
		log.SetOutput(io.Discard)
		m := n
		if x.Thorough {
			m = nt
		}
		var hist []string
		x.Desc(func() string { return strings.Join(hist, "; ") })
		shared()
		for i := 0; i < m; i++ {
			c := list[x.Choose(len(list))]
			hist = append(hist, c.name)
			r := c.safely()
			if w := solo(c); w != r {
				x.Failf("after %s: the call's result differs from its result in a process of its own: %s", strings.Join(hist, "; "), diffAt(w, r))
			}
			x.packageValues(strings.Join(hist, "; "))
			x.State(strings.Join(hist, ";"))
			x.OutcomeH(hashStr(r))
		}
	}
}

// ---- documents share nothing ----

func runC16Mutate(n int) func(x *X) {
	return func(x *X) {
		log.SetOutput(io.Discard)
		ks := make([]int, n)
		docs := make([]*svg.Svg, n)
		dumps := make([]string, n)
		for i := range ks {
			ks[i] = x.Choose(len(sharedTexts))
		}
		v := x.Choose(n)
		x.Desc(func() string { return fmt.Sprintf("documents %v, changing number %d", ks, v) })
		for i, k := range ks {
			docs[i], _ = svg.Parse(strings.NewReader(sharedTexts[k]), svg.IgnoreErrorMode)
			dumps[i] = dump(docs[i])
		}
		if docs[v] == nil {
			x.Skip()
		}
		pics := make([][nBackends]string, n)
		for i, d := range docs {
			if i != v && d != nil {
				for b := range pics[i] {
					pics[i][b] = picOf(d, b)
				}
			}
		}
		scramble(reflect.ValueOf(docs[v]), 0)
		for i, d := range docs {
			if i == v {
				continue
			}
			if s := dump(d); s != dumps[i] {
				x.Failf("changing one document changes another: %s", diffAt(dumps[i], s))
			}
			if d != nil {
				for b := range pics[i] {
					if p := picOf(d, b); p != pics[i][b] {
						x.Failf("changing one document changes how another is drawn with %s", backendNames[b])
					}
				}
			}
		}
		x.packageValues("changing a document")
		for i, k := range ks {
			s, _ := svg.Parse(strings.NewReader(sharedTexts[k]), svg.IgnoreErrorMode)
			if d := dump(s); d != dumps[i] {
				x.Failf("changing one document changes the result of a later parse: %s", diffAt(dumps[i], d))
			}
			x.OutcomeH(hashStr(dumps[i]))
		}
		x.State(ks, v)
	}
}

func picOf(s *svg.Svg, b int) string {
	return call{"", func() string {
		c := newCanvas(b, picW, picH)
		c.draw(s)
		return strconv.FormatUint(c.hash(), 16)
	}}.safely()
}

// a document parsed before the others stays as it is, and documents edited in place stay edited
func runC16Alive(n, nt int) func(x *X) {
	return func(x *X) {
		log.SetOutput(io.Discard)
		m := n
		if x.Thorough {
			m = nt
		}
		var docs []*svg.Svg
		var dumps []string
		var hist []string
		x.Desc(func() string { return strings.Join(hist, "; ") })
		for i := 0; i < m; i++ {
			k := x.Choose(len(sharedTexts))
			mode := svg.ErrorMode(2 * x.Choose(2))
			hist = append(hist, fmt.Sprint("parse ", k, " mode ", mode))
			s, _ := svg.Parse(strings.NewReader(sharedTexts[k]), mode)
			if s != nil && i&1 == 0 {
				scramble(reflect.ValueOf(s), 0)
			}
			docs = append(docs, s)
			dumps = append(dumps, dump(s))
			for j := range docs {
				if d := dump(docs[j]); d != dumps[j] {
					x.Failf("%s: the result of parse %d changed: %s", strings.Join(hist, "; "), j, diffAt(dumps[j], d))
				}
			}
			x.State(hist)
		}
	}
}

// ---- interleavings under a controlled scheduler ----

type sched struct {
	mu     sync.Mutex
	on     bool
	steps  int64
	plan   []int // global step numbers at which the running task is suspended
	to     []int // the task that runs next
	cur    int
	parked [][]chan struct{}
	fin    []bool
	start  []func()
}

func (s *sched) hook() {
	s.mu.Lock()
	if !s.on {
		s.mu.Unlock()
		return
	}
	n := atomic.AddInt64(&s.steps, 1)
	if len(s.plan) > 0 && int(n) == s.plan[0] {
		t := s.to[0]
		s.plan, s.to = s.plan[1:], s.to[1:]
		if t != s.cur && !s.fin[t] {
			ch := make(chan struct{})
			s.parked[s.cur] = append(s.parked[s.cur], ch)
			s.wake(t)
			s.mu.Unlock()
			<-ch
			return
		}
	}
	s.mu.Unlock()
}

// wake lets task t run (mu held).
func (s *sched) wake(t int) {
	s.cur = t
	if f := s.start[t]; f != nil {
		s.start[t] = nil
		go f()
		return
	}
	for _, c := range s.parked[t] {
		close(c)
	}
	s.parked[t] = nil
}

// interleave runs the calls: the first one until plan[0], and so on; a finished call hands over to the first
// unfinished one.
func interleave(calls []call, first int, plan, to []int) (res []string, steps int64, free bool) {
	if runtime.GOMAXPROCS(0) != 1 {
		runtime.GOMAXPROCS(1) // one processor, so that pools of unused values are shared, too
	}
	s := &sched{on: true, plan: plan, to: to, cur: first, parked: make([][]chan struct{}, len(calls)), fin: make([]bool, len(calls)), start: make([]func(), len(calls))}
	res = make([]string, len(calls))
	done := make(chan struct{})
	left := len(calls)
	for i := range calls {
		i := i
		s.start[i] = func() {
			res[i] = calls[i].safely()
			s.mu.Lock()
			s.fin[i] = true
			left--
			if left == 0 {
				close(done)
			} else if s.on {
				for j := range s.fin {
					if !s.fin[j] {
						s.wake(j)
						break
					}
				}
			}
			s.mu.Unlock()
		}
	}
	yield.Hook = s.hook
	s.mu.Lock()
	s.wake(first)
	s.mu.Unlock()
	last := int64(-1)
	for {
		select {
		case <-done:
			yield.Hook = nil
			return res, s.steps, free
		case <-time.After(300 * time.Millisecond):
			if n := atomic.LoadInt64(&s.steps); n != last {
				last = n
				continue
			}
			// the running task waits for a suspended one (a lock): let all of them run
			s.mu.Lock()
			if s.on {
				s.on, free = false, true
				for t := range calls {
					if !s.fin[t] {
						s.wake(t)
					}
				}
			}
			s.mu.Unlock()
		}
	}
}

var stepCache = map[string]int{}

// stepsOf is the number of scheduling points of a call alone.
func stepsOf(c call) int {
	n, ok := stepCache[c.name]
	if !ok {
		_, _, _ = interleave([]call{c}, 0, nil, nil)
		_, k, _ := interleave([]call{c}, 0, nil, nil)
		n = int(k)
		stepCache[c.name] = n
	}
	return n
}

func (x *X) runInterleaved(calls []call, first int, plan, to []int) {
	res, n, free := interleave(calls, first, plan, to)
	for i, r := range res {
		if w := solo(calls[i]); w != r {
			x.Failf("call %d (%s): the result differs from the result alone: %s", i, calls[i].name, diffAt(w, r))
		}
	}
	if d := dumpPackage(); d != packageDump {
		x.Failf("the package's default style or identity matrix changed: %s", diffAt(packageDump, d))
	}
	for _, r := range res {
		x.OutcomeH(hashStr(r))
	}
	x.State(first, plan, to, calls[0].name, calls[1].name, n, free)
}

// one call suspended at every point, other calls running meanwhile
func runC16One(list []call) func(x *X) {
	return func(x *X) {
		log.SetOutput(io.Discard)
		shared()
		a := list[x.Choose(len(list))]
		b := list[x.Choose(len(list))]
		n := stepsOf(a)
		i := x.Choose(n) + 1
		x.Desc(func() string {
			return fmt.Sprintf("%s suspended at point %d of %d; %s meanwhile", a.name, i, n, b.name)
		})
		x.runInterleaved([]call{a, b}, 0, []int{i}, []int{1})
	}
}

// two calls, the first suspended at every point, the second one suspended too
func runC16Two(list []call, div, divt int) func(x *X) {
	return func(x *X) {
		log.SetOutput(io.Discard)
		shared()
		a := list[x.Choose(len(list))]
		b := list[x.Choose(len(list))]
		d := div
		if x.Thorough {
			d = divt
		}
		n, m := stepsOf(a), stepsOf(b)
		i := x.Choose((n+d-1)/d)*d + 1
		j := x.Choose((m+d-1)/d)*d + 1
		x.Desc(func() string {
			return fmt.Sprintf("%s suspended at point %d of %d; %s suspended at point %d of %d", a.name, i, n, b.name, j, m)
		})
		x.runInterleaved([]call{a, b}, 0, []int{i, i + j}, []int{1, 0})
	}
}

// three calls
func runC16Three(list []call, div, divt int) func(x *X) {
	return func(x *X) {
		log.SetOutput(io.Discard)
		shared()
		a := list[x.Choose(len(list))]
		b := list[x.Choose(len(list))]
		c := list[x.Choose(len(list))]
		d := div
		if x.Thorough {
			d = divt
		}
		n, m := stepsOf(a), stepsOf(b)
		i := x.Choose((n+d-1)/d)*d + 1
		j := x.Choose((m+d-1)/d)*d + 1
		x.Desc(func() string {
			return fmt.Sprintf("%s suspended at point %d of %d; %s suspended at point %d of %d; then %s", a.name, i, n, b.name, j, m, c.name)
		})
		x.runInterleaved([]call{a, b, c}, 0, []int{i, i + j}, []int{1, 2})
	}
}

// ---- unsynchronised access: happens-before analysis of pairs of calls in a process of their own ----

func raceMain(names []string) int {
	log.SetOutput(io.Discard)
	var cs []*call
	for _, n := range names {
		c := findCall(n)
		if c == nil {
			return 2
		}
		if strings.HasPrefix(n, "draw") {
			shared()
		}
		cs = append(cs, c)
	}
	for round := 0; round < 4; round++ {
		var wg sync.WaitGroup
		res := make([]string, len(cs))
		for k := range cs {
			i := k
			if round&1 == 1 {
				i = len(cs) - 1 - k
			}
			wg.Add(1)
			go func() {
				res[i] = cs[i].safely()
				wg.Done()
			}()
		}
		wg.Wait()
		for i, r := range res {
			fmt.Printf("%d %x\n", i, sha256.Sum256([]byte(r)))
		}
	}
	return 0
}

func runC16Race(list []call) func(x *X) {
	return func(x *X) {
		bin := os.Getenv("MC_RACE_BIN")
		if bin == "" {
			x.Skip()
		}
		i := x.Choose(len(list))
		j := x.Choose(len(list))
		if j < i {
			x.Skip()
		}
		a, b := list[i], list[j]
		x.Desc(func() string { return a.name + " and " + b.name + " at the same time" })
		cmd := exec.Command(bin, "race", a.name, b.name)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=4", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		if err := cmd.Run(); err != nil {
			e := errb.String()
			if strings.Contains(e, "DATA RACE") {
				x.Failf("unsynchronised access to shared data: %s", firstLines(trimRace(e), 12))
			}
			x.Failf("the process died: %v: %s", err, firstLines(e, 4))
		}
		for _, l := range strings.Split(strings.TrimSpace(out.String()), "\n") {
			c := a
			if strings.HasPrefix(l, "1") {
				c = b
			}
			if w := fmt.Sprintf("%x", sha256.Sum256([]byte(solo(c)))); len(l) < 3 || l[2:] != w {
				x.Failf("%s: the result differs from the result alone", c.name)
			}
		}
		x.State(i, j)
		x.OutcomeH(hashStr(out.String()))
	}
}

func trimRace(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "by goroutine") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	return strings.Join(out, "\n")
}

func init() {
	tiny := []call{*findCall("parse 3 mode 2"), *findCall("parse 5 mode 2"), *findCall("draw 1 with rasterx options false"), *findCall("draw 1 with gg options false"), *findCall("draw 2 with draw2d options false")}
	register(&Property{ID: "C16", Rule: "each execution runs calls of the real code in one process, one after the other or under a controlled scheduler that suspends calls between any two statements of the library; each call's result is compared with its result in a process of its own",
		Assumptions: []string{
			"the statement granularity comes from a build overlay that puts a scheduling point before every statement of the library; the libraries below it run without scheduling points",
			"accesses inside one statement are covered by the happens-before analysis of the race driver (go build -race)"},
		Drivers: []*Driver{
			{Name: "sequences2", Split: 63, Quick: -1, Thorough: -1, Run: runC16Seq(allCalls, 2, 3), Note: "all sequences of 2 (3) of 63 calls"},
			{Name: "sequences3", Split: 400, Quick: -1, Thorough: -1, Run: runC16Seq(smallCalls, 3, 4), Note: "all sequences of 3 (4) of 20 calls"},
			{Name: "mutate", Quick: -1, Thorough: -1, Run: runC16Mutate(2), Note: "all pairs of 11 documents, each of them changed everywhere"},
			{Name: "alive", Quick: -1, Thorough: -1, Run: runC16Alive(3, 4), Note: "all sequences of 3 (4) parses of 11 documents in 2 modes, every other result changed everywhere"},
			{Name: "race", Split: 300, Quick: -1, Thorough: -1, Run: runC16Race(smallCalls), Note: "all pairs of 20 calls at the same time, happens-before analysis"},
			{Name: "one", Quick: -1, Thorough: -1, Run: runC16One(smallCalls), Note: "all pairs of 20 calls, the first suspended at every statement"},
			{Name: "two", Quick: -1, Thorough: -1, Run: runC16Two(tiny, 16, 1), Note: "all pairs of 5 calls, both suspended at every 16th (every) statement"},
			{Name: "three", Quick: -1, Thorough: -1, Run: runC16Three(tiny, 64, 8), Note: "all triples of 5 calls, two suspended at every 64th (8th) statement"},
		}})
}

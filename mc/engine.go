package main

// The explorer: exhaustive enumeration of all choice sequences of a nondeterministic driver
// (stateless model checking), with deviation bounding, sharded over worker processes.

import (
	"encoding/binary"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// Driver is one closed nondeterministic program around the real code.
type Driver struct {
	Name string
	// Bound is the deviation bound (number of Dev choices different from 0) per tier; <0: unbounded.
	Quick, Thorough int
	// QuickOff / ThoroughOff leave the driver out of a tier.
	QuickOff, ThoroughOff bool
	Run                   func(x *X)
	Split                 int    // product of choices at which the work is divided (0: splitProd)
	Note                  string // alphabet and bound in words
}

// Property groups the drivers that decide one property.
type Property struct {
	ID          string
	Drivers     []*Driver
	Assumptions []string
	Rule        string
}

var registry = map[string]*Property{}

func register(p *Property) { registry[p.ID] = p }

type skipExec struct{}

// violation panics out of an execution with a counterexample.
type violation struct{ msg string }

// X is one execution of a driver.
type X struct {
	Tier     string
	Thorough bool

	choices []int
	ns      []int
	prefix  []int
	preNs   []int

	devs, bound int

	// sharding
	shard, shards int
	prod, splitAt int
	split         int // index of first choice owned by this shard, -1 while undecided

	// observation
	states   *hashSet
	outcomes *hashSet
	desc     func() string
	replay   bool
	vis      uint64 // model states visited in this execution
}

const splitProd = 4000

func (x *X) record(n int, dev bool) int {
	i := len(x.choices)
	c := 0
	if i < len(x.prefix) {
		c = x.prefix[i]
		if x.preNs != nil && x.preNs[i] != n {
			fmt.Fprintf(os.Stderr, "HARNESS ERROR: nondeterministic driver: choice %d had %d options, now %d\n", i, x.preNs[i], n)
			os.Exit(3)
		}
		if c >= n {
			fmt.Fprintf(os.Stderr, "HARNESS ERROR: replayed choice %d out of range %d\n", c, n)
			os.Exit(3)
		}
	}
	x.choices = append(x.choices, c)
	x.ns = append(x.ns, n)
	if x.shards > 1 && x.split < 0 {
		// the work is divided where enough plain choices were made, or at the last but one deviation
		cut := false
		if dev && x.bound > 0 {
			need := x.bound - 1
			if need < 1 {
				need = 1
			}
			cut = c > 0 && x.devs+1 >= need
		} else {
			x.prod *= n
			cut = x.prod >= x.splitAt
		}
		if cut {
			x.split = len(x.choices)
			if int(hashInts(x.choices)%uint64(x.shards)) != x.shard {
				panic(skipExec{})
			}
		}
	}
	return c
}

// Choose explores all n alternatives.
func (x *X) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	return x.record(n, false)
}

// Bool explores both values, false first.
func (x *X) Bool() bool { return x.Choose(2) == 1 }

// Dev explores n alternatives of which 0 is the default; taking another one costs a deviation.
func (x *X) Dev(n int) int {
	if n <= 1 || (x.bound >= 0 && x.devs >= x.bound) {
		return 0
	}
	c := x.record(n, true)
	if c > 0 {
		x.devs++
	}
	return c
}

// Pick explores all strings of the list.
func (x *X) Pick(list ...string) string { return list[x.Choose(len(list))] }

// DevPick explores the list at the cost of a deviation for all but the first.
func (x *X) DevPick(list ...string) string { return list[x.Dev(len(list))] }

// Skip abandons an execution that is outside the driver's domain.
func (x *X) Skip() { panic(skipExec{}) }

// State registers a visited model state.
func (x *X) State(parts ...interface{}) {
	x.vis++
	x.states.add(hashStr(fmt.Sprint(parts...)))
}

// StateH registers a visited model state by hash.
func (x *X) StateH(h uint64) { x.vis++; x.states.add(h) }

// Outcome registers the observed outcome of the execution.
func (x *X) Outcome(s string)     { x.outcomes.add(hashStr(s)) }
func (x *X) OutcomeH(h uint64)    { x.outcomes.add(h) }
func (x *X) Desc(f func() string) { x.desc = f }

// Failf reports a counterexample.
func (x *X) Failf(f string, args ...interface{}) {
	panic(violation{fmt.Sprintf(f, args...)})
}

// Call runs code under test; a panic in it is a violation.
func (x *X) Call(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case violation, skipExec:
				panic(r)
			}
			st := string(debug.Stack())
			panic(violation{fmt.Sprintf("%s panicked: %v\n%s", what, r, trimStack(st))})
		}
	}()
	f()
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, "\n")
}

// ---- progress area shared with the supervisor ----

const progSize = 1 << 14

type progress struct{ mem []byte }

func openProgress(path string, create bool) (*progress, error) {
	fl := os.O_RDWR
	if create {
		fl |= os.O_CREATE
	}
	f, err := os.OpenFile(path, fl, 0o600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if create {
		if err := f.Truncate(progSize); err != nil {
			return nil, err
		}
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, progSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &progress{m}, nil
}

func (p *progress) tick(driver int, choices []int) {
	if p == nil {
		return
	}
	*(*uint64)(unsafe.Pointer(&p.mem[0]))++
	binary.LittleEndian.PutUint32(p.mem[8:], uint32(driver))
	n := len(choices)
	if n > (progSize-16)/4 {
		n = (progSize - 16) / 4
	}
	binary.LittleEndian.PutUint32(p.mem[12:], uint32(n))
	for i := 0; i < n; i++ {
		binary.LittleEndian.PutUint32(p.mem[16+4*i:], uint32(choices[i]))
	}
}

func (p *progress) read() (count uint64, driver int, choices []int) {
	count = *(*uint64)(unsafe.Pointer(&p.mem[0]))
	driver = int(binary.LittleEndian.Uint32(p.mem[8:]))
	n := int(binary.LittleEndian.Uint32(p.mem[12:]))
	for i := 0; i < n && 16+4*i+4 <= progSize; i++ {
		choices = append(choices, int(binary.LittleEndian.Uint32(p.mem[16+4*i:])))
	}
	return
}

// ---- hash sets ----

type hashSet struct {
	m    map[uint64]struct{}
	full bool
}

const hashCap = 3_000_000

func newHashSet() *hashSet { return &hashSet{m: map[uint64]struct{}{}} }
func (h *hashSet) add(v uint64) {
	if h == nil {
		return
	}
	if len(h.m) >= hashCap {
		if _, ok := h.m[v]; !ok {
			h.full = true
		}
		return
	}
	h.m[v] = struct{}{}
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	h ^= h >> 32
	h *= 0x9E3779B97F4A7C15
	h ^= h >> 29
	return h
}

func hashInts(a []int) uint64 {
	h := uint64(14695981039346656037)
	for _, v := range a {
		h ^= uint64(v) + 0x9E37
		h *= 1099511628211
	}
	h ^= h >> 32
	h *= 0x9E3779B97F4A7C15
	h ^= h >> 29
	return h
}

// ---- exploration of one driver by one worker ----

type Found struct {
	Driver  string `json:"driver"`
	Choices []int  `json:"choices"`
	Msg     string `json:"message"`
	Desc    string `json:"case"`
	Kind    string `json:"kind"` // violation, crash, hang, memory
}

type DriverStats struct {
	Name       string   `json:"name"`
	Note       string   `json:"bound"`
	Execs      uint64   `json:"executions"`
	Edges      uint64   `json:"transitions"`
	Visits     uint64   `json:"state_visits"`
	DevBound   int      `json:"deviation_bound"`
	Exhaustive bool     `json:"exhaustive"`
	Samples    []string `json:"samples,omitempty"`
	Seconds    float64  `json:"seconds"`
}

func (d *Driver) bound(tier string) int {
	if tier == "thorough" {
		return d.Thorough
	}
	return d.Quick
}

func (d *Driver) splitAt() int {
	if d.Split > 0 {
		return d.Split
	}
	return splitProd
}

// runOne executes the driver once along a prefix.
func runOne(d *Driver, x *X) (found *Found, skipped bool) {
	defer func() {
		if r := recover(); r != nil {
			switch v := r.(type) {
			case skipExec:
				skipped = true
			case violation:
				found = &Found{Driver: d.Name, Choices: append([]int{}, x.choices...), Msg: v.msg, Kind: "violation"}
				if x.desc != nil {
					found.Desc = x.desc()
				}
			default:
				fmt.Fprintf(os.Stderr, "HARNESS ERROR: driver %s panicked: %v choices=%v\n%s", d.Name, r, x.choices, debug.Stack())
				os.Exit(3)
			}
		}
	}()
	d.Run(x)
	return
}

func explore(d *Driver, di int, tier string, shard, shards int, prog *progress, states, outcomes *hashSet, deadline time.Time, known func(*Found) bool) (st DriverStats, found *Found) {
	st = DriverStats{Name: d.Name, Note: d.Note, DevBound: d.bound(tier), Exhaustive: true}
	t0 := time.Now()
	defer func() { st.Seconds = time.Since(t0).Seconds() }()
	var prefix, preNs []int
	for iter := 0; ; iter++ {
		if iter&255 == 0 && time.Now().After(deadline) {
			st.Exhaustive = false
			return
		}
		x := &X{Tier: tier, Thorough: tier == "thorough", prefix: prefix, preNs: preNs, bound: d.bound(tier), shard: shard, shards: shards,
			prod: 1, splitAt: d.splitAt(), split: -1, states: states, outcomes: outcomes}
		prog.tick(di, prefix)
		f, skipped := runOne(d, x)
		owned := x.split >= 0 || shard == 0
		if x.split < 0 && shard != 0 {
			// short execution below the split depth: belongs to shard 0
			f = nil
		}
		if !skipped && owned {
			st.Execs++
			st.Visits += x.vis
			if x.desc != nil && shard == 0 && (st.Execs == 1 || st.Execs == 100 || st.Execs == 5000) {
				s := x.desc()
				if len(s) > 700 {
					s = s[:700] + "..."
				}
				st.Samples = append(st.Samples, s)
			}
		}
		lo := len(prefix) - 1
		if lo < 0 {
			lo = 0
		}
		for i := lo; i < len(x.choices); i++ {
			if (x.split >= 0 && i >= x.split) || shard == 0 {
				if !(skipped && x.split == len(x.choices) && shard != 0) {
					st.Edges++
				}
			}
		}
		if f != nil && !known(f) {
			found = f
			return
		}
		// next prefix in depth-first order
		k := len(x.choices) - 1
		for k >= 0 && x.choices[k]+1 >= x.ns[k] {
			k--
		}
		if k < 0 {
			return
		}
		prefix = append(append([]int{}, x.choices[:k]...), x.choices[k]+1)
		preNs = append([]int{}, x.ns[:k+1]...)
	}
}

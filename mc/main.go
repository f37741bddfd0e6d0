package main

// Supervisor, worker and replay entry points.
//
//	mc check <ID> <tier>           explore all drivers of a property, write evidence, exit 0/1
//	mc worker <ID> <tier> <shard> <shards> <dir> [driver]
//	mc replay <file>               re-execute one counterexample
//	mc list

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

const (
	hangLimit   = 60 * time.Second // one execution normally takes well below a millisecond
	memLimitKB  = 3 << 20          // resident set of one worker
	quickBudget = 420 * time.Second
	thorBudget  = 3 * time.Hour
)

type workerResult struct {
	Stats []DriverStats `json:"stats"`
	Found *Found        `json:"found"`
	Known []string      `json:"known"`
	Full  bool          `json:"full"`
}

// Replay is the committed form of a counterexample.
type Replay struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Found    *Found `json:"found"`
	// History is set when the counterexample needs the executions before it in the same process
	History *histReplay `json:"history,omitempty"`
}

type histReplay struct{ Shard, Shards int }

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc check ID tier | replay file | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
			for _, d := range registry[id].Drivers {
				fmt.Printf("   %-28s dev<=%d/%d  %s\n", d.Name, d.Quick, d.Thorough, d.Note)
			}
		}
	case "worker":
		worker(os.Args[2:])
	case "replay":
		os.Exit(replay(os.Args[2], true))
	case "instrument":
		if err := instrument(os.Args[2], os.Args[3]); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	case "solo":
		os.Exit(soloMain(os.Args[2]))
	case "race":
		os.Exit(raceMain(os.Args[2:]))
	case "check":
		os.Exit(check(os.Args[2], os.Args[3]))
	default:
		os.Exit(2)
	}
}

// ---- known findings ----

type knownFinding struct {
	Status   string `json:"status"` // "known" or "fixed"
	Property string `json:"property"`
	Match    string `json:"match"` // substring identifying the failing case in the counterexample
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

func loadKnown(id string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.jsonl"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] != '{' {
			continue
		}
		var k knownFinding
		if json.Unmarshal([]byte(l), &k) == nil && k.Status == "known" && k.Property == id && k.Match != "" {
			out = append(out, k)
		}
	}
	return out
}

func knownMatcher(id string, hit map[string]bool) func(*Found) bool {
	ks := loadKnown(id)
	return func(f *Found) bool {
		for _, k := range ks {
			if strings.Contains(f.Desc+"\n"+f.Msg, k.Match) {
				hit[k.What] = true
				return true
			}
		}
		return false
	}
}

// ---- worker ----

func setupWorker() {
	debug.SetMaxStack(64 << 20)
	debug.SetGCPercent(400)
}

func worker(a []string) {
	setupWorker()
	id, tier := a[0], a[1]
	shard, _ := strconv.Atoi(a[2])
	shards, _ := strconv.Atoi(a[3])
	dir := a[4]
	only := ""
	if len(a) > 5 {
		only = a[5]
	}
	p := registry[id]
	prog, err := openProgress(filepath.Join(dir, fmt.Sprintf("prog%d", shard)), true)
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS ERROR:", err)
		os.Exit(3)
	}
	budget := quickBudget
	if tier == "thorough" {
		budget = thorBudget
	}
	if s := os.Getenv("MC_BUDGET_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	start := time.Now()
	states, outcomes := newHashSet(), newHashSet()
	var res workerResult
	hit := map[string]bool{}
	known := knownMatcher(id, hit)
	var act []int
	for i, d := range p.Drivers {
		if only != "" && d.Name != only {
			continue
		}
		if (tier == "quick" && d.QuickOff) || (tier == "thorough" && d.ThoroughOff) {
			continue
		}
		act = append(act, i)
	}
	for k, i := range act {
		// a driver may use what is left of the budget, keeping a share for the ones after it
		left := budget - time.Since(start)
		share := time.Duration(float64(left) * 0.6)
		if os.Getenv("MC_EVEN") != "" {
			share = left / time.Duration(len(act)-k)
		}
		if k == len(act)-1 {
			share = left
		}
		st, f := explore(p.Drivers[i], i, tier, shard, shards, prog, states, outcomes, time.Now().Add(share), known)
		res.Stats = append(res.Stats, st)
		if f != nil {
			res.Found = f
			break
		}
	}
	for w := range hit {
		res.Known = append(res.Known, w)
	}
	res.Full = states.full || outcomes.full
	writeHashes(filepath.Join(dir, fmt.Sprintf("states%d", shard)), states)
	writeHashes(filepath.Join(dir, fmt.Sprintf("outs%d", shard)), outcomes)
	b, _ := json.Marshal(res)
	if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("res%d", shard)), b, 0o600); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS ERROR:", err)
		os.Exit(3)
	}
}

func writeHashes(path string, h *hashSet) {
	b := make([]byte, 0, 8*len(h.m))
	for v := range h.m {
		b = binary.LittleEndian.AppendUint64(b, v)
	}
	_ = os.WriteFile(path, b, 0o600)
}

func unionHashes(paths []string) int {
	m := map[uint64]struct{}{}
	for _, p := range paths {
		b, err := os.ReadFile(p)
		if err != nil {
			continue
		}
		for i := 0; i+8 <= len(b); i += 8 {
			m[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
		}
	}
	return len(m)
}

// ---- replay ----

func replay(path string, verbose bool) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := registry[r.Property]
	if p == nil {
		return 2
	}
	if r.History != nil {
		dir, err := os.MkdirTemp("", "mcreplay")
		if err != nil {
			return 2
		}
		defer os.RemoveAll(dir)
		f := runShard(r.Property, r.Tier, r.History.Shard, r.History.Shards, dir, r.Found.Driver)
		if f != nil {
			if verbose {
				fmt.Printf("%s\n%s\n", f.Msg, f.Desc)
			}
			return 1
		}
		return 0
	}
	setupWorker()
	for _, d := range p.Drivers {
		if d.Name != r.Found.Driver {
			continue
		}
		x := &X{Tier: r.Tier, Thorough: r.Tier == "thorough", prefix: r.Found.Choices, bound: d.bound(r.Tier), shards: 1, split: -1,
			prod: 1, states: newHashSet(), outcomes: newHashSet(), replay: true}
		f, _ := runOne(d, x)
		if f != nil {
			if verbose {
				fmt.Printf("%s\n%s\n", f.Msg, f.Desc)
			}
			return 1
		}
		if verbose {
			fmt.Println("no violation")
			if x.desc != nil {
				fmt.Println(x.desc())
			}
		}
		return 0
	}
	return 2
}

func runShard(id, tier string, shard, shards int, dir, driver string) *Found {
	cmd := exec.Command(os.Args[0], "worker", id, tier, fmt.Sprint(shard), fmt.Sprint(shards), dir, driver)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	done := make(chan error, 1)
	if cmd.Start() != nil {
		return nil
	}
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(quickBudget):
		_ = cmd.Process.Kill()
		return nil
	}
	b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("res%d", shard)))
	if err != nil {
		return nil
	}
	var res workerResult
	_ = json.Unmarshal(b, &res)
	return res.Found
}

// confirm re-runs a replay file in a fresh process; reports whether the violation shows again.
func confirm(file string) bool {
	cmd := exec.Command(os.Args[0], "replay", file)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	if cmd.Start() != nil {
		return false
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	limit := time.After(hangLimit)
	for {
		select {
		case err := <-done:
			return err != nil // exit 1 = violation; crash = violation too
		case <-limit:
			_ = cmd.Process.Kill()
			<-done
			return true
		case <-tick.C:
			if rssKB(cmd.Process.Pid) > memLimitKB {
				_ = cmd.Process.Kill()
				<-done
				return true
			}
		}
	}
}

func rssKB(pid int) int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(f[1])
	return n * 4
}

// ---- supervisor ----

type wproc struct {
	cmd   *exec.Cmd
	shard int
	done  chan error
	prog  *progress
	last  uint64
	since time.Time
	errf  string
}

func check(id, tier string) int {
	t0 := time.Now()
	p := registry[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	dir, err := os.MkdirTemp("", "mcrun")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	shards := 8
	if s := os.Getenv("MC_SHARDS"); s != "" {
		shards, _ = strconv.Atoi(s)
	}
	var ws []*wproc
	for i := 0; i < shards; i++ {
		w := &wproc{shard: i, done: make(chan error, 1), since: time.Now()}
		w.cmd = exec.Command(os.Args[0], "worker", id, tier, fmt.Sprint(i), fmt.Sprint(shards), dir)
		if o := os.Getenv("MC_DRIVER"); o != "" {
			w.cmd.Args = append(w.cmd.Args, o)
		}
		w.cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
		w.errf = filepath.Join(dir, fmt.Sprintf("err%d", i))
		f, _ := os.Create(w.errf)
		w.cmd.Stderr = f
		w.cmd.Stdout = f
		if err := w.cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		f.Close()
		ws = append(ws, w)
		go func() { w.done <- w.cmd.Wait() }()
	}
	var results []workerResult
	var founds []*foundAt
	harness := ""
	live := len(ws)
	kill := func() {
		for _, w := range ws {
			if w != nil {
				_ = w.cmd.Process.Kill()
			}
		}
	}
	grace := time.Time{}
	for live > 0 {
		time.Sleep(50 * time.Millisecond)
		for i, w := range ws {
			if w == nil {
				continue
			}
			if w.prog == nil {
				w.prog, _ = openProgress(filepath.Join(dir, fmt.Sprintf("prog%d", w.shard)), false)
			}
			select {
			case err := <-w.done:
				live--
				ws[i] = nil
				b, rerr := os.ReadFile(filepath.Join(dir, fmt.Sprintf("res%d", w.shard)))
				if err == nil && rerr == nil {
					var r workerResult
					_ = json.Unmarshal(b, &r)
					results = append(results, r)
					if r.Found != nil {
						founds = append(founds, &foundAt{r.Found, w.shard})
					}
					break
				}
				if !grace.IsZero() {
					break // killed by us
				}
				eb, _ := os.ReadFile(w.errf)
				if strings.Contains(string(eb), "HARNESS ERROR") {
					harness = string(eb)
					kill()
					break
				}
				// the process died inside an execution: that execution is the counterexample
				founds = append(founds, &foundAt{w.current(p, "crash", "process died: "+firstLines(string(eb), 3)), w.shard})
			default:
				if w.prog == nil {
					if time.Since(w.since) > hangLimit {
						harness = "worker did not start"
						kill()
					}
					break
				}
				n, _, _ := w.prog.read()
				if n != w.last {
					w.last, w.since = n, time.Now()
				} else if time.Since(w.since) > hangLimit {
					founds = append(founds, &foundAt{w.current(p, "hang", fmt.Sprintf("one execution ran for more than %v", hangLimit)), w.shard})
					_ = w.cmd.Process.Kill()
					grace = time.Now()
				}
				if rssKB(w.cmd.Process.Pid) > memLimitKB {
					founds = append(founds, &foundAt{w.current(p, "memory", "resident memory grew above 3 GB"), w.shard})
					_ = w.cmd.Process.Kill()
					grace = time.Now()
				}
			}
		}
		if len(founds) > 0 && grace.IsZero() {
			grace = time.Now()
		}
		if !grace.IsZero() {
			kill()
		}
	}
	if harness != "" {
		fmt.Fprintln(os.Stderr, harness)
		return 2
	}
	// choose the first reproducible counterexample, shortest first
	sort.SliceStable(founds, func(i, j int) bool { return len(founds[i].f.Choices) < len(founds[j].f.Choices) })
	var conf *Replay
	rdir := filepath.Join(verifDir(), "evidence", "replays")
	rfile := filepath.Join(rdir, fmt.Sprintf("%s-%s.json", id, tier))
	_ = os.MkdirAll(rdir, 0o755)
	_ = os.Remove(rfile)
	for _, f := range founds {
		r := &Replay{Property: id, Tier: tier, Found: f.f}
		writeJSON(rfile, r)
		ok := false
		for k := 0; k < 8 && !ok; k++ {
			ok = confirm(rfile)
		}
		if !ok && f.f.Kind == "violation" {
			// it may depend on the executions before it in the same process
			d2, err := os.MkdirTemp("", "mchist")
			if err == nil {
				g := runShard(id, tier, f.shard, shards, d2, f.f.Driver)
				os.RemoveAll(d2)
				if g == nil {
					d2, err = os.MkdirTemp("", "mchist")
					if err == nil {
						g = runShard(id, tier, f.shard, shards, d2, f.f.Driver)
						os.RemoveAll(d2)
					}
				}
				if g != nil {
					r.Found = g
					r.History = &histReplay{f.shard, shards}
					writeJSON(rfile, r)
					ok = true
				}
			}
		}
		if ok {
			conf = r
			break
		}
		fmt.Fprintf(os.Stderr, "note: counterexample of driver %s did not reproduce: %s\n", f.f.Driver, firstLines(f.f.Msg, 2))
	}
	if conf == nil {
		_ = os.Remove(rfile)
	}
	ev := evidence(p, tier, results, dir, shards, conf, time.Since(t0), len(founds))
	writeJSON(filepath.Join(verifDir(), "evidence", id+".json"), ev)
	kset := map[string]bool{}
	for _, r := range results {
		for _, k := range r.Known {
			kset[k] = true
		}
	}
	for _, k := range loadKnown(id) {
		if kset[k.What] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
		}
	}
	if conf != nil {
		fmt.Printf("driver %s: %s\n%s\n", conf.Found.Driver, conf.Found.Msg, conf.Found.Desc)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rfile)
		return 1
	}
	cov := ev["coverage"].(map[string]interface{})
	fmt.Printf("%s %s: held on everything explored: executions=%v states=%v transitions=%v exhaustive=%v %.1fs\n", id, tier,
		cov["traces_validated_against_impl"], cov["states"], cov["transitions"], cov["exhaustive"], time.Since(t0).Seconds())
	return 0
}

type foundAt struct {
	f     *Found
	shard int
}

func (w *wproc) current(p *Property, kind, msg string) *Found {
	f := &Found{Kind: kind, Msg: msg}
	if w.prog == nil {
		f.Driver = p.Drivers[0].Name
		return f
	}
	_, di, ch := w.prog.read()
	if di < len(p.Drivers) {
		f.Driver = p.Drivers[di].Name
	}
	f.Choices = ch
	return f
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	_ = os.MkdirAll(filepath.Dir(path), 0o755)
	_ = os.WriteFile(path, append(b, '\n'), 0o644)
}

func evidence(p *Property, tier string, rs []workerResult, dir string, shards int, conf *Replay, wall time.Duration, nf int) map[string]interface{} {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var sp, op []string
	for i := 0; i < shards; i++ {
		sp = append(sp, filepath.Join(dir, fmt.Sprintf("states%d", i)))
		op = append(op, filepath.Join(dir, fmt.Sprintf("outs%d", i)))
	}
	agg := map[string]*DriverStats{}
	full := false
	var execs, edges, visits uint64
	exh := len(rs) == shards && conf == nil
	var samples []string
	for _, r := range rs {
		full = full || r.Full
		for _, s := range r.Stats {
			a := agg[s.Name]
			if a == nil {
				c := s
				c.Samples = nil
				a = &c
				agg[s.Name] = a
			} else {
				a.Execs += s.Execs
				a.Edges += s.Edges
				a.Visits += s.Visits
				a.Exhaustive = a.Exhaustive && s.Exhaustive
				if s.Seconds > a.Seconds {
					a.Seconds = s.Seconds
				}
			}
			execs += s.Execs
			edges += s.Edges
			visits += s.Visits
			exh = exh && s.Exhaustive
			for _, t := range s.Samples {
				samples = append(samples, s.Name+": "+t)
			}
		}
	}
	var ds []*DriverStats
	for _, d := range p.Drivers {
		if a := agg[d.Name]; a != nil {
			ds = append(ds, a)
		}
	}
	if samples == nil {
		samples = []string{}
	}
	cov := map[string]interface{}{
		"states":                        unionHashes(sp),
		"transitions":                   edges,
		"traces_validated_against_impl": execs,
		"distinct_outcomes":             unionHashes(op),
		"state_visits":                  visits,
		"samples":                       samples,
		"exhaustive":                    exh,
		"drivers":                       ds,
		"rule":                          p.Rule,
	}
	if full {
		cov["counting_note"] = "distinct counts are lower bounds: a worker's hash set reached its cap"
	}
	v := 0
	if conf != nil {
		v = 1
		cov["counterexample"] = conf.Found
	}
	return map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": p.Assumptions, "wall_s": wall.Seconds(), "violations": v,
	}
}

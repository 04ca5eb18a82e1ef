//go:build go1.21

// Command harness runs the simulations of one property.
//
//	harness check  -prop ID -tier quick|thorough -seed N -verif DIR
//	harness worker ...                       (started by check)
//	harness shrink ...                       (started by check)
//	harness replay FILE
//	harness selftest -prop ID -seed N -n K   (determinism)
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"gkr-mimc/gkr"
	"gkr-mimc/hash"
	"gkr-mimc/zzverif/zzsim"
)

const (
	exitViolation = 10 // worker and replay: the property is broken
	exitHarness   = 3
)

func runSeed(seed uint64, prop string, i int) uint64 {
	return hashName(seed*0x9e3779b97f4a7c15+1, fmt.Sprintf("%s/%d", prop, i))
}

// known findings: lines "known: property=ID class=CLASS text"
func loadKnown(file string) map[string]map[string]string {
	out := map[string]map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(strings.TrimSpace(l), " ", 4)
		if len(f) == 4 && f[0] == "known:" && strings.HasPrefix(f[1], "property=") && strings.HasPrefix(f[2], "class=") {
			p := f[1][len("property="):]
			if out[p] == nil {
				out[p] = map[string]string{}
			}
			out[p][f[2][len("class="):]] = f[3]
		}
	}
	return out
}

func getProp(id string) *Prop {
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "harness: property not built in:", id)
		os.Exit(exitHarness)
	}
	return p
}

// one executes a run, turning a panic of the code under test outside a simulation into a violation.
func one(x *X) {
	zzsim.Reset()
	zzsim.Entropy = nil
	defer func() {
		if e := recover(); e != nil {
			s := string(debug.Stack())
			x.panicked(fmt.Sprint(e), s)
		}
	}()
	earlier(x)
	x.Prop.Run(x)
}

// earlier uses the library before the run, in some runs, so that what it keeps between calls is not fresh.
// What these uses return is not judged.
func earlier(x *X) {
	n := x.Pick("earlier", 90, 6, 4)
	if n == 0 {
		return
	}
	x.Probe("library used before")
	x.unjudged = true
	defer func() { x.unjudged = false }()
	for k := 0; k < n; k++ {
		p := fmt.Sprintf("earlier%d.", k)
		m := x.Elems(p+"m", x.I(p+"len", 0, 6))
		spec := genCirc(x, p+"c.", circOpts{maxLayers: 2, maxB: 1, maxWires: 3})
		sh := genShape(x, p, 2)
		in := x.Elems(p+"inputs", 1<<(sh.bN+spec.Layers[0].In))
		x.Quiet(func() {
			hash.MimcHash(m)
			hash.PoseidonT4.Hash(m)
			hash.GMimcT4.Hash(m)
			tr := honest(spec, sh, in)
			v := gkr.NewVerifier(sh.bN, spec.build(nil))
			v.Verify(tr.Proof, tr.Inputs, tr.Outputs)
		})
	}
}

// panicked records a panic. Where the oracle of the harness raised it, the code returned something the
// oracle cannot even index (a proof without rounds, say): with what the code returns on the
// unchanged tree it never happens. Errors of the simulator itself are no answer.
func (x *X) panicked(e, stack string) {
	switch {
	case strings.Contains(e, "zzsim: "):
		harnessPanic(e, stack)
	case ofTheCode(e + "\n" + stack):
		x.Failf("panic", "panic: %v\n%s", e, stack)
	default:
		x.Failf("unusable-output", "the oracle cannot handle what the code returned: %v\n%s", e, stack)
	}
}

func harnessPanic(e any, stack string) {
	fmt.Fprintf(os.Stderr, "harness: panic in the harness: %v\n%s\n", e, stack)
	os.Exit(exitHarness)
}

// ofTheCode tells whether the panic of a stack was raised by the code under test: the
// innermost frame that is neither library nor simulator nor a gate of the harness decides.
func ofTheCode(stack string) bool {
	if strings.HasPrefix(stack, "zzsim: ") {
		return false
	}
	panicked := false
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "panic(") {
			panicked = true
			continue
		}
		if !panicked || strings.HasPrefix(l, "\t") {
			continue
		}
		l = strings.TrimPrefix(l, "created by ")
		switch {
		case strings.HasPrefix(l, "gkr-mimc/zzverif/"):
			continue
		case strings.HasPrefix(l, "main.(*hGate)"), strings.HasPrefix(l, "main.GateS"), strings.HasPrefix(l, "main.stallGate"), strings.HasPrefix(l, "main.(*watch)"):
			continue
		case strings.HasPrefix(l, "gkr-mimc/"):
			return true
		case strings.HasPrefix(l, "main."):
			return false
		}
	}
	return false
}

// Stats is what a worker reports.
type Stats struct {
	Runs     int              `json:"runs"`
	Sims     int              `json:"sims"`
	Steps    int64            `json:"steps"`
	Clock    int64            `json:"clock"`
	Switches int64            `json:"switches"`
	Preempts int64            `json:"preempts"`
	Tasks    int64            `json:"tasks"`
	Evals    int64            `json:"evals"`
	Nontriv  int              `json:"nontriv"`
	Hashes   []uint64         `json:"hashes"`
	All      map[int]uint64   `json:"all"`
	Faults   map[string]int64 `json:"faults"`
	Probes   map[string]int64 `json:"probes"`
	Known    map[string]int   `json:"known"`
	Samples  []string         `json:"samples"`
	Slowest  float64          `json:"slowest"`
	Wall     float64          `json:"wall"`
	Stopped  bool             `json:"stopped"`
}

// Viol is a violation found by a worker.
type Viol struct {
	Index  int    `json:"index"`
	Seed   uint64 `json:"seed"`
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

func (s *Stats) add(x *X, i int) {
	s.Runs++
	s.Sims += x.sims
	s.Steps += x.Steps
	s.Clock += x.Clock
	s.Switches += x.Switch
	s.Preempts += x.Preempt
	s.Tasks += x.Tasks
	s.Evals += x.Evals
	h := x.digest()
	if x.nontriv {
		s.Nontriv++
		s.Hashes = append(s.Hashes, h)
	}
	if i < 256 {
		s.All[i] = h
	}
	for k, v := range x.faults {
		s.Faults[k] += v
	}
	for k, v := range x.probes {
		s.Probes[k] += v
	}
	for k, v := range x.known {
		s.Known[k] += v
	}
	if len(s.Samples) < 2 && x.nontriv {
		s.Samples = append(s.Samples, fmt.Sprintf("run %d seed %d: %s| %s", i, x.Seed, cut(strings.Join(x.trace, "; "), 1500), cut(x.knobs(), 600)))
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (x *X) digest() uint64 {
	g := zzsim.NewRNG(x.Hash ^ hashName(7, x.knobs()))
	return g.U()
}

func newStats() *Stats {
	return &Stats{All: map[int]uint64{}, Faults: map[string]int64{}, Probes: map[string]int64{}, Known: map[string]int{}}
}

func writeJSON(file string, v any) {
	b, err := json.Marshal(v)
	must(err)
	must(os.WriteFile(file+".tmp", b, 0o644))
	must(os.Rename(file+".tmp", file))
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	w := fs.Int("w", 0, "")
	of := fs.Int("of", 1, "")
	n := fs.Int("n", 1, "")
	out := fs.String("out", "", "")
	soft := fs.Float64("soft", 600, "")
	known := fs.String("known", "", "")
	fs.Parse(args)
	p := getProp(*prop)
	p.Known = loadKnown(*known)[p.ID]
	st := newStats()
	start := time.Now()
	progress, err := os.Create(*out + ".progress")
	must(err)
	for i := *w; i < *n; i += *of {
		if time.Since(start).Seconds() > *soft {
			st.Stopped = true
			break
		}
		progress.WriteAt([]byte(fmt.Sprintf("%10d", i)), 0)
		x := newX(p, *tier, runSeed(*seed, p.ID, i))
		t := time.Now()
		one(x)
		if d := time.Since(t).Seconds(); d > st.Slowest {
			st.Slowest = d
		}
		st.add(x, i)
		if x.fail != nil {
			st.Wall = time.Since(start).Seconds()
			writeJSON(*out, st)
			writeJSON(*out+".viol", Viol{i, x.Seed, x.fail.Class, x.fail.Detail})
			os.Exit(exitViolation)
		}
	}
	st.Wall = time.Since(start).Seconds()
	writeJSON(*out, st)
}

// Replay is a replay file.
type Replay struct {
	Property  string                   `json:"property"`
	Tier      string                   `json:"tier"`
	VerifSeed uint64                   `json:"verif_seed"`
	Run       int                      `json:"run"`
	Seed      uint64                   `json:"seed"`
	Class     string                   `json:"class"`
	Detail    string                   `json:"detail"`
	Overrides map[string]int64         `json:"overrides,omitempty"`
	Warmup    []uint64                 `json:"warmup,omitempty"` // runs executed before, in the same process
	Schedule  map[int][]zzsim.Decision `json:"schedule,omitempty"`
	Knobs     string                   `json:"knobs"`
	Trace     []string                 `json:"trace"`
	Faults    map[string]int64         `json:"faults"`
	Minimised string                   `json:"minimised"`
}

func (r *Replay) run(record bool) *X {
	p := getProp(r.Property)
	for _, s := range r.Warmup {
		one(newX(p, r.Tier, s))
	}
	x := newX(p, r.Tier, r.Seed)
	x.over = r.Overrides
	x.sched = r.Schedule
	x.record = record
	one(x)
	return x
}

func replay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	known := fs.String("known", "", "")
	quiet := fs.Bool("q", false, "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	must(err)
	var r Replay
	must(json.Unmarshal(b, &r))
	getProp(r.Property).Known = loadKnown(*known)[r.Property]
	x := r.run(true)
	if x.fail == nil {
		fmt.Printf("no violation: property=%s\n", r.Property)
		return
	}
	if !*quiet {
		for _, l := range x.trace {
			fmt.Println("  ", l)
		}
		fmt.Printf("class %s: %s\n", x.fail.Class, x.fail.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, fs.Arg(0))
	}
	if x.fail.Class != r.Class {
		fmt.Printf("note: class %q, the file says %q\n", x.fail.Class, r.Class)
		os.Exit(exitViolation + 1)
	}
	os.Exit(exitViolation)
}

func (r *Replay) fails(deadline time.Time) *X {
	if time.Now().After(deadline) {
		return nil
	}
	x := r.run(false)
	if x.fail != nil && x.fail.Class == r.Class {
		return x
	}
	return nil
}

func (r *Replay) fill(x *X) {
	r.Detail = x.fail.Detail
	r.Knobs = x.knobs()
	r.Trace = x.trace
	r.Faults = x.faults
}

// shrink minimises a violation and writes the replay file after every success.
func shrink(args []string) {
	fs := flag.NewFlagSet("shrink", flag.ExitOnError)
	in := fs.String("in", "", "")
	out := fs.String("out", "", "")
	budget := fs.Float64("budget", 60, "")
	known := fs.String("known", "", "")
	fs.Parse(args)
	b, err := os.ReadFile(*in)
	must(err)
	var r Replay
	must(json.Unmarshal(b, &r))
	getProp(r.Property).Known = loadKnown(*known)[r.Property]
	start := time.Now()
	deadline := start.Add(time.Duration(*budget * float64(time.Second)))
	x := r.fails(deadline)
	if x == nil {
		fmt.Println("not reproduced")
		os.Exit(1)
	}
	r.fill(x)
	writeJSON(*out, r)
	if len(r.Warmup) > 0 {
		return
	}
	r.Overrides = map[string]int64{}
	attempts := 0
	try := func(over map[string]int64) bool {
		c := r
		c.Overrides = map[string]int64{}
		for k, v := range r.Overrides {
			c.Overrides[k] = v
		}
		for k, v := range over {
			c.Overrides[k] = v
		}
		attempts++
		y := c.fails(deadline)
		if y == nil {
			return false
		}
		x = y
		r = c
		r.fill(x)
		return true
	}
	knobDeadline := start.Add(time.Duration(*budget * 0.6 * float64(time.Second)))
	for again := true; again && time.Now().Before(knobDeadline); {
		again = false
		for _, name := range append([]string{}, x.order...) {
			v, ok := x.vals[name]
			if !ok || v[0] == v[1] || strings.HasSuffix(name, ".variant") {
				continue
			}
			if time.Now().After(knobDeadline) {
				break
			}
			lo, cur := v[1], v[0]
			if try(map[string]int64{name: lo}) {
				again = true
				continue
			}
			// halve the distance
			for cur-lo > 1 {
				mid := (lo + cur) / 2
				if try(map[string]int64{name: mid}) {
					cur = mid
					again = true
				} else {
					lo = mid
				}
				if time.Now().After(knobDeadline) {
					break
				}
			}
		}
	}
	// then the schedule
	c := r
	rec := c.run(true)
	if rec.fail != nil && rec.fail.Class == r.Class {
		c.Schedule = rec.Schedul
		for k := 0; k < rec.sims; k++ {
			if c.Schedule[k] == nil {
				c.Schedule[k] = []zzsim.Decision{}
			}
		}
		if y := c.fails(deadline); y != nil {
			type ref struct {
				sim int
				d   zzsim.Decision
			}
			var all []ref
			var sims []int
			for k := range c.Schedule {
				sims = append(sims, k)
			}
			sort.Ints(sims)
			for _, k := range sims {
				for _, d := range c.Schedule[k] {
					all = append(all, ref{k, d})
				}
			}
			before := len(all)
			build := func(l []ref) Replay {
				d := c
				d.Schedule = map[int][]zzsim.Decision{}
				for _, k := range sims {
					d.Schedule[k] = []zzsim.Decision{}
				}
				for _, e := range l {
					d.Schedule[e.sim] = append(d.Schedule[e.sim], e.d)
				}
				return d
			}
			test := func(l []ref) bool {
				attempts++
				d := build(l)
				if z := d.fails(deadline); z != nil {
					y = z
					return true
				}
				return false
			}
			if test(nil) {
				all = nil
			}
			n := 2
			for len(all) > 1 && time.Now().Before(deadline) {
				size := (len(all) + n - 1) / n
				reduced := false
				for s := 0; s < len(all); s += size {
					e := min(s+size, len(all))
					rest := append(append([]ref{}, all[:s]...), all[e:]...)
					if test(rest) {
						all = rest
						n = max(n-1, 2)
						reduced = true
						break
					}
				}
				if !reduced {
					if n >= len(all) {
						break
					}
					n = min(2*n, len(all))
				}
			}
			if len(all) == 1 && test(nil) {
				all = nil
			}
			d := build(all)
			// final run of the minimised file, with record so that places are named
			z := d.run(true)
			if z.fail != nil && z.fail.Class == r.Class {
				r = d
				r.fill(z)
				r.Minimised = fmt.Sprintf("%d scheduling decisions of %d, %d attempts", len(all), before, attempts)
				writeJSON(*out, r)
				return
			}
		}
	}
	r.Minimised = fmt.Sprintf("%d attempts, schedule from the seed", attempts)
	writeJSON(*out, r)
}

func self(extra []string, args ...string) *exec.Cmd {
	exe, err := os.Executable()
	must(err)
	c := exec.Command(exe, args...)
	c.Env = append(os.Environ(), extra...)
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	return c
}

type child struct {
	w    int
	err  error
	errb *bytes.Buffer
	code int
}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	verif := fs.String("verif", "/verif", "")
	runs := fs.Int("runs", 0, "")
	procs := fs.Int("procs", 8, "")
	soft := fs.Float64("soft", 0, "")
	level := fs.String("level", "3", "instrumentation level")
	fs.Parse(args)
	p := getProp(*prop)
	start := time.Now()
	known := filepath.Join(*verif, "known-findings.txt")
	knownList := loadKnown(known)[p.ID]
	n := p.Quick
	limit := 200.0
	if *tier == "thorough" {
		n = p.Deep
		limit = 1500
	}
	if *runs > 0 {
		n = *runs
	}
	if *soft > 0 {
		limit = *soft
	}
	tmp, err := os.MkdirTemp(filepath.Join(*verif, ".build"), "run-"+p.ID+"-")
	must(err)
	defer os.RemoveAll(tmp)
	fail := func(format string, a ...any) {
		fmt.Fprintf(os.Stderr, "ERROR property=%s: %s\n", p.ID, fmt.Sprintf(format, a...))
		os.RemoveAll(tmp)
		os.Exit(exitHarness)
	}
	w := *procs
	if n < w {
		w = n
	}
	outf := func(i int) string { return filepath.Join(tmp, "w"+strconv.Itoa(i)) }
	done := make(chan child, w+1)
	cmds := make([]*exec.Cmd, w+1)
	startWorker := func(slot, wi, of, count int, maxprocs string) {
		c := self([]string{"GOMAXPROCS=" + maxprocs, "GOGC=300", "GOMEMLIMIT=1500MiB"}, "worker", "-prop", p.ID, "-tier", *tier, "-seed", fmt.Sprint(*seed),
			"-w", strconv.Itoa(wi), "-of", strconv.Itoa(of), "-n", strconv.Itoa(count), "-out", outf(slot), "-soft", fmt.Sprint(limit), "-known", known)
		var eb bytes.Buffer
		c.Stderr = &eb
		c.Stdout = &eb
		must(c.Start())
		cmds[slot] = c
		go func() {
			err := c.Wait()
			done <- child{slot, err, &eb, c.ProcessState.ExitCode()}
		}()
	}
	for i := 0; i < w; i++ {
		startWorker(i, i, w, n, "1")
	}
	alive := w
	var viol *Viol
	violBy := -1
	st := newStats()
	hard := time.After(time.Duration((limit + 240) * float64(time.Second)))
	seen := map[uint64]bool{}
	killAll := func() {
		for _, c := range cmds {
			if c != nil && c.Process != nil {
				c.Process.Kill()
			}
		}
	}
	crashes := []child{}
	for alive > 0 {
		select {
		case c := <-done:
			alive--
			var s Stats
			if b, err := os.ReadFile(outf(c.w)); err == nil && json.Unmarshal(b, &s) == nil {
				merge(st, &s, seen)
			}
			switch {
			case c.err == nil:
			case c.code == exitViolation:
				b, err := os.ReadFile(outf(c.w) + ".viol")
				if err != nil {
					break
				}
				var v Viol
				must(json.Unmarshal(b, &v))
				if viol == nil || v.Index < viol.Index {
					viol, violBy = &v, c.w
				}
				killAll()
			case viol != nil: // killed by us
			case c.code == exitHarness:
				killAll()
				fail("worker %d: %s", c.w, tail(c.errb.String()))
			default:
				crashes = append(crashes, c)
				killAll()
			}
		case <-hard:
			killAll()
			fail("the runs did not end in time")
		}
	}
	if viol == nil && len(crashes) > 0 {
		// a worker died of something Go cannot recover from: does the run do it again?
		c := crashes[0]
		b, _ := os.ReadFile(outf(c.w) + ".progress")
		i, err := strconv.Atoi(strings.TrimSpace(string(b)))
		for _, d := range crashes {
			if strings.Contains(d.errb.String(), "fatal error") || strings.Contains(d.errb.String(), "panic") {
				c = d
				b, _ = os.ReadFile(outf(c.w) + ".progress")
				i, err = strconv.Atoi(strings.TrimSpace(string(b)))
				break
			}
		}
		text := c.errb.String()
		if err != nil || strings.Contains(text, "all goroutines are asleep") || !strings.Contains(text, "fatal error") {
			fail("worker %d ended with %v: %s", c.w, c.err, tail(text))
		}
		r := Replay{Property: p.ID, Tier: *tier, VerifSeed: *seed, Run: i, Seed: runSeed(*seed, p.ID, i), Class: "crash",
			Detail: tail(text), Minimised: "not minimised: the process dies"}
		f := replayFile(*verif, &r)
		writeJSON(f, r)
		o, err := self(nil, "replay", "-known", known, f).CombinedOutput()
		if err != nil && strings.Contains(string(o), "fatal error") {
			evidence(*verif, p, *tier, *seed, st, seen, start, 1, *level, nil)
			report(p, f, "crash", tail(text))
		}
		fail("worker %d died and the run does not die again: %s", c.w, tail(text))
	}
	if viol != nil {
		r := Replay{Property: p.ID, Tier: *tier, VerifSeed: *seed, Run: viol.Index, Seed: viol.Seed, Class: viol.Class, Detail: viol.Detail}
		f := minimise(*verif, tmp, known, &r, violBy, w, *seed, *tier)
		if f == "" {
			fail("run %d (seed %d) failed once (%s: %s) and could not be reproduced", viol.Index, viol.Seed, viol.Class, tail(viol.Detail))
		}
		evidence(*verif, p, *tier, *seed, st, seen, start, 1, *level, nil)
		var rr Replay
		b, _ := os.ReadFile(f)
		json.Unmarshal(b, &rr)
		for _, l := range rr.Trace {
			fmt.Println("  ", l)
		}
		report(p, f, rr.Class, rr.Detail)
	}
	// determinism: the first runs again, in another process with another number of threads
	k := min(n, 2*w)
	t0 := time.Now()
	same, diff := 0, 0
	if st.Wall/float64(max(st.Runs, 1))*float64(k) < 25 {
		startWorker(w, 0, 1, k, "3")
		select {
		case c := <-done:
			var s Stats
			b, err := os.ReadFile(outf(w))
			if c.err == nil && err == nil && json.Unmarshal(b, &s) == nil {
				for i, h := range s.All {
					if g, ok := st.All[i]; ok && g == h {
						same++
					} else if ok {
						diff++
						fmt.Printf("note: run %d differs in another process\n", i)
					}
				}
			}
		case <-time.After(120 * time.Second):
			killAll()
		}
	}
	det := map[string]any{"runs_repeated_in_another_process": same + diff, "identical": same, "different": diff, "wall_s": time.Since(t0).Seconds()}
	evidence(*verif, p, *tier, *seed, st, seen, start, 0, *level, det)
	var classes []string
	for c := range st.Known {
		classes = append(classes, c)
	}
	sort.Strings(classes)
	for _, c := range classes {
		fmt.Printf("KNOWN-FINDING: property=%s %s (seen in %d runs)\n", p.ID, knownList[c], st.Known[c])
	}
	fmt.Printf("OK property=%s runs=%d simulations=%d distinct=%d steps=%d wall=%.1fs\n", p.ID, st.Runs, st.Sims, len(seen), st.Steps, time.Since(start).Seconds())
}

func report(p *Prop, file, class, detail string) {
	fmt.Printf("class %s: %s\n", class, detail)
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
	os.Exit(1)
}

func replayFile(verif string, r *Replay) string {
	dir := filepath.Join(verif, "replays")
	must(os.MkdirAll(dir, 0o755))
	return filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", r.Property, r.VerifSeed, r.Run))
}

// minimise writes a replay file that a fresh process reproduces; "" if there is none.
func minimise(verif, tmp, known string, r *Replay, w, of int, seed uint64, tier string) string {
	f := replayFile(verif, r)
	in := filepath.Join(tmp, "shrink.in")
	writeJSON(in, r)
	confirm := func() bool {
		c := self(nil, "replay", "-q", "-known", known, f)
		err := runLimited(c, 300*time.Second)
		return err != nil && c.ProcessState != nil && c.ProcessState.ExitCode() == exitViolation
	}
	budget := "60"
	if tier == "thorough" {
		budget = "300"
	}
	c := self([]string{"GOMAXPROCS=2"}, "shrink", "-in", in, "-out", f, "-budget", budget, "-known", known)
	runLimited(c, 240*time.Second)
	if _, err := os.Stat(f); err == nil && confirm() {
		return f
	}
	// as found, without minimisation
	writeJSON(f, r)
	if confirm() {
		return f
	}
	// it needs the runs that went before in the same process
	var before []uint64
	for i := w; i < r.Run; i += of {
		before = append(before, runSeed(seed, r.Property, i))
	}
	for k := 1; ; k *= 4 {
		if k > len(before) {
			k = len(before)
		}
		r.Warmup = before[len(before)-k:]
		writeJSON(f, r)
		if confirm() {
			break
		}
		if k == len(before) {
			os.Remove(f)
			return ""
		}
	}
	// drop what is not needed of them
	deadline := time.Now().Add(60 * time.Second)
	for size := len(r.Warmup) / 2; size >= 1 && time.Now().Before(deadline); size /= 2 {
		for s := 0; s < len(r.Warmup) && time.Now().Before(deadline); {
			old := r.Warmup
			e := min(s+size, len(old))
			r.Warmup = append(append([]uint64{}, old[:s]...), old[e:]...)
			writeJSON(f, r)
			if !confirm() {
				r.Warmup = old
				s = e
			}
		}
	}
	r.Minimised = fmt.Sprintf("needs %d earlier runs in the same process", len(r.Warmup))
	writeJSON(f, r)
	return f
}

func runLimited(c *exec.Cmd, d time.Duration) error {
	if err := c.Start(); err != nil {
		return err
	}
	t := time.AfterFunc(d, func() { c.Process.Kill() })
	defer t.Stop()
	return c.Wait()
}

func tail(s string) string {
	if len(s) > 4000 {
		return s[:2500] + "\n...\n" + s[len(s)-1400:]
	}
	return s
}

func merge(st, s *Stats, seen map[uint64]bool) {
	st.Runs += s.Runs
	st.Sims += s.Sims
	st.Steps += s.Steps
	st.Clock += s.Clock
	st.Switches += s.Switches
	st.Preempts += s.Preempts
	st.Tasks += s.Tasks
	st.Evals += s.Evals
	st.Nontriv += s.Nontriv
	st.Wall += s.Wall
	st.Stopped = st.Stopped || s.Stopped
	if s.Slowest > st.Slowest {
		st.Slowest = s.Slowest
	}
	for _, h := range s.Hashes {
		seen[h] = true
	}
	for i, h := range s.All {
		st.All[i] = h
	}
	for k, v := range s.Faults {
		st.Faults[k] += v
	}
	for k, v := range s.Probes {
		st.Probes[k] += v
	}
	for k, v := range s.Known {
		st.Known[k] += v
	}
	if len(st.Samples) < 4 && len(s.Samples) > 0 {
		st.Samples = append(st.Samples, s.Samples[0])
	}
}

func evidence(verif string, p *Prop, tier string, seed uint64, st *Stats, seen map[uint64]bool, start time.Time, violations int, level string, det any) {
	wall := time.Since(start).Seconds()
	if st.Samples == nil {
		st.Samples = []string{}
	}
	e := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": violations,
		"coverage": map[string]any{
			"evaluations": st.Runs, "distinct_nontrivial": len(seen),
			"rule":                   p.Rule + " A run is non-trivial if the scheduler switched between tasks or a fault was injected; runs are distinct by the hash of their draws and of the sequence of scheduling decisions taken.",
			"samples":                st.Samples,
			"simulations":            st.Sims,
			"calls_checked":          st.Evals,
			"runs_per_hour":          int(float64(st.Runs) / wall * 3600),
			"seeds_per_hour":         int(float64(st.Runs) / wall * 3600),
			"simulated_time_steps":   st.Clock,
			"yield_points":           st.Steps,
			"context_switches":       st.Switches,
			"preemptions":            st.Preempts,
			"tasks":                  st.Tasks,
			"faults_injected":        st.Faults,
			"probes":                 st.Probes,
			"known_findings_seen":    st.Known,
			"distinct_interleavings": len(seen),
			"slowest_run_s":          st.Slowest,
			"stopped_by_wall_clock":  st.Stopped,
			"instrumentation_level":  level,
			"real_components":        p.Real,
			"stubbed_components":     p.Stub,
			"determinism_sample":     det,
			"processes":              "one per core, each run in one process on one simulated scheduler",
		},
		"assumptions": []string{"sequentially consistent memory at statement granularity (reads, computed values and writes of shared data are separate steps)",
			"field arithmetic of gurvy and the constraint solver of gnark are trusted",
			"sampled schedules, faults and inputs: a clean batch is evidence, not proof"},
	}
	must(os.MkdirAll(filepath.Join(verif, "evidence"), 0o755))
	b, err := json.MarshalIndent(e, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644))
}

// selftest runs the same seeds twice in this process and prints their digests.
func selftest(args []string) {
	fs := flag.NewFlagSet("selftest", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	n := fs.Int("n", 20, "")
	from := fs.Int("from", 0, "")
	verbose := fs.Bool("v", false, "")
	known := fs.String("known", "/verif/known-findings.txt", "")
	fs.Parse(args)
	p := getProp(*prop)
	p.Known = loadKnown(*known)[p.ID]
	bad := 0
	for i := *from; i < *from+*n; i++ {
		t := time.Now()
		x := newX(p, *tier, runSeed(*seed, p.ID, i))
		one(x)
		d := time.Since(t)
		y := newX(p, *tier, runSeed(*seed, p.ID, i))
		one(y)
		// and from a recording
		z := newX(p, *tier, runSeed(*seed, p.ID, i))
		z.record = true
		one(z)
		u := newX(p, *tier, runSeed(*seed, p.ID, i))
		u.sched = z.Schedul
		if u.sched == nil {
			u.sched = map[int][]zzsim.Decision{}
		}
		one(u)
		if x.digest() != y.digest() || x.digest() != z.digest() || x.digest() != u.digest() || u.Diverge != 0 {
			bad++
			fmt.Printf("run %d: NOT DETERMINISTIC %x %x %x %x divergent=%d\n", i, x.digest(), y.digest(), z.digest(), u.digest(), u.Diverge)
		}
		f := ""
		if x.fail != nil {
			f = "FAIL " + x.fail.Class + ": " + x.fail.Detail
		}
		if *verbose || f != "" {
			fmt.Printf("run %d: %016x %.2fs sims=%d steps=%d switches=%d tasks=%d %s | %s\n", i, x.digest(), d.Seconds(), x.sims, x.Steps, x.Switch, x.Tasks, f, strings.Join(x.trace, "; "))
		} else {
			fmt.Printf("%016x\n", x.digest())
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness check|worker|shrink|replay|selftest|list ...")
		os.Exit(exitHarness)
	}
	debug.SetMaxStack(1 << 30)
	_ = runtime.NumCPU
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "worker":
		worker(os.Args[2:])
	case "shrink":
		shrink(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	case "selftest":
		selftest(os.Args[2:])
	case "list":
		for id := range props {
			fmt.Println(id)
		}
	default:
		os.Exit(exitHarness)
	}
}

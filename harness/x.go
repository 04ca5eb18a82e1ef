//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"sort"
	"strings"

	"github.com/consensys/gurvy/bn256/fr"

	"gkr-mimc/zzverif/zzsim"
)

// Prop is the workload and oracle of one property.
type Prop struct {
	ID    string
	Quick int // runs in the quick tier
	Deep  int // runs in the thorough tier
	Rule  string
	Real  []string // components that run real (instrumented) code
	Stub  []string // components simulated or stubbed
	Run   func(x *X)
	Short bool // operations take few steps: switch often
	// Known describes the recorded findings of the property by class.
	Known map[string]string
}

var props = map[string]*Prop{}

// Violation is a failed property.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

// X is one simulated run: every choice is a named draw from its seed, so that a
// draw can be overridden (by the shrinker) without moving the others.
type X struct {
	Prop     *Prop
	Tier     string
	Seed     uint64
	over     map[string]int64
	sched    map[int][]zzsim.Decision // replayed schedules, by simulation number
	record   bool
	vals     map[string][3]int64
	order    []string
	sims     int
	fail     *Violation
	known    map[string]int
	faults   map[string]int64
	probes   map[string]int64
	Steps    int64
	Clock    int64
	Switch   int64
	Preempt  int64
	Stalls   int64
	Tasks    int64
	Evals    int64
	Hash     uint64
	Schedul  map[int][]zzsim.Decision
	Diverge  int64
	nontriv  bool
	unjudged bool
	trace    []string
	polName  string
}

func newX(p *Prop, tier string, seed uint64) *X {
	return &X{Prop: p, Tier: tier, Seed: seed, vals: map[string][3]int64{}, faults: map[string]int64{}, probes: map[string]int64{},
		known: map[string]int{}, Schedul: map[int][]zzsim.Decision{}, Hash: 14695981039346656037}
}

func hashName(seed uint64, name string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(name))
	g := zzsim.NewRNG(seed ^ h.Sum64())
	g.U()
	return g.U()
}

// Int draws a number in [lo, hi].
func (x *X) Int(name string, lo, hi int64) int64 {
	if hi < lo {
		hi = lo
	}
	v := lo + int64(hashName(x.Seed, name)%uint64(hi-lo+1))
	if o, ok := x.over[name]; ok {
		v = o
		if v < lo {
			v = lo
		}
		if v > hi {
			v = hi
		}
	}
	if _, ok := x.vals[name]; !ok {
		x.order = append(x.order, name)
	}
	x.vals[name] = [3]int64{v, lo, hi}
	return v
}

// I is Int for int.
func (x *X) I(name string, lo, hi int) int { return int(x.Int(name, int64(lo), int64(hi))) }

// Pick draws an index with the given weights; the first is the simplest.
func (x *X) Pick(name string, weights ...int) int {
	total := 0
	for _, w := range weights {
		total += w
	}
	// the draw is over the index so that the shrinker can lower it
	v := int(hashName(x.Seed, name) % uint64(total))
	k := 0
	for v >= weights[k] {
		v -= weights[k]
		k++
	}
	if o, ok := x.over[name]; ok {
		k = int(o)
		if k >= len(weights) {
			k = len(weights) - 1
		}
	}
	if _, ok := x.vals[name]; !ok {
		x.order = append(x.order, name)
	}
	x.vals[name] = [3]int64{int64(k), 0, int64(len(weights) - 1)}
	return k
}

// Chance is true with probability pct/100.
func (x *X) Chance(name string, pct int) bool { return x.Pick(name, 100-pct, pct) == 1 }

// RNG is a generator of its own for bulk data.
func (x *X) RNG(name string) *zzsim.RNG {
	g := zzsim.NewRNG(hashName(x.Seed, "rng:"+name))
	return &g
}

// Fault counts an injected fault.
func (x *X) Fault(kind string) { x.faults[kind]++; x.nontriv = true }

// Probe counts that a rare condition was reached.
func (x *X) Probe(name string) { x.probes[name]++ }

// Failf records a violation; the first one counts.
func (x *X) Failf(class, format string, args ...any) {
	if x.fail == nil && !x.unjudged {
		x.fail = &Violation{Class: class, Detail: fmt.Sprintf(format, args...)}
	}
}

// Known records a listed finding that showed up again.
func (x *X) Finding(class, format string, args ...any) {
	if _, ok := x.Prop.Known[class]; ok {
		x.known[class]++
		return
	}
	x.Failf(class, format, args...)
}

// Failed tells whether a violation was recorded.
func (x *X) Failed() bool { return x.fail != nil }

// Note adds a line to the description of the run.
func (x *X) Note(format string, args ...any) {
	if len(x.trace) < 200 {
		x.trace = append(x.trace, fmt.Sprintf(format, args...))
	}
}

var means = []int64{100, 1, 2, 4, 8, 16, 32, 64, 250, 1000, 4000, 20000}

// config draws the scheduling policy of the next simulation.
func (x *X) config() zzsim.Config {
	c := zzsim.Config{StepCap: 300 << 20}
	n := fmt.Sprintf("sim%d.", x.sims)
	switch x.Pick(n+"policy", 1, 9, 5, 5, 1, 2) {
	case 0:
		c.Policy = "fifo"
	case 1:
		c.Policy = "random"
	case 2:
		c.Policy = "pct"
	case 3:
		c.Policy = "stall"
	case 4:
		c.Policy = "lifo"
	case 5:
		c.Policy = "lockstep"
	}
	c.Mean = means[x.I(n+"mean", 0, len(means)-1)]
	if x.Prop.Short && c.Mean > 32 {
		c.Mean = 1 + c.Mean%32
	}
	c.Depth = 1 + x.I(n+"depth", 0, 11)
	if c.Policy == "stall" {
		c.Depth = []int{10, 20, 30, 50, 70, 90}[x.I(n+"stallPct", 0, 5)]
		c.Mean = []int64{1, 2, 8, 40}[x.I(n+"mean", 0, len(means)-1)%4]
	}
	c.Horizon = int64(1) << uint(x.I(n+"horizon", 4, 20))
	if x.Prop.Short && c.Horizon > 1<<12 {
		c.Horizon >>= 8
	}
	if c.Policy == "lockstep" && c.Mean > 64 {
		c.Mean = 64
	}
	c.StallLen = int64(1) << uint(x.I(n+"stallLen", 6, 18))
	if x.Chance(n+"pause", 30) {
		c.PausePct = int64(x.I(n+"pausePct", 2, 60))
		c.PauseMax = int64(1) << uint(x.I(n+"pauseLen", 10, 43))
	}
	c.NCPU = 1 << uint(x.I(n+"ncpu", 0, 4))
	c.Seed = hashName(x.Seed+uint64(x.Int(n+"variant", 0, 0)), n+"seed")
	return c
}

// restart goes on in a new process in some runs: package-level state starts afresh, and only
// the values the harness holds (circuit, inputs, transcripts) survive.
func (x *X) restart(name string, pct int) {
	if x.Chance("restart"+name, pct) {
		zzsim.Reset()
		x.Fault("process restart")
	}
}

func (x *X) overVariant(sim int, v int64) {
	x.over[fmt.Sprintf("sim%d.variant", sim)] = v
}

// Sim runs body under the adversarial scheduler. Deadlocks, crashes and spins are violations.
func (x *X) Sim(body func()) zzsim.Result { return x.sim(x.config(), true, body) }

// Quiet runs body without preemption: the reference schedule.
func (x *X) Quiet(body func()) zzsim.Result {
	return x.sim(zzsim.Config{Policy: "fifo", StepCap: 300 << 20, NCPU: 4, Seed: x.Seed}, false, body)
}

// SimCfg runs body with a changed configuration.
func (x *X) SimCfg(change func(c *zzsim.Config), body func()) zzsim.Result {
	c := x.config()
	change(&c)
	return x.sim(c, true, body)
}

func (x *X) sim(c zzsim.Config, adversarial bool, body func()) zzsim.Result {
	num := x.sims
	x.sims++
	if v, ok := x.over[fmt.Sprintf("sim%d.variant", num)]; ok && v != 0 {
		c.Seed = hashName(c.Seed, fmt.Sprintf("variant%d", v))
	}
	c.Record = x.record
	if x.sched != nil {
		c.Replay = true
		c.Schedule = x.sched[num]
	}
	if adversarial {
		zzsim.Hot = x.Pick(fmt.Sprintf("sim%d.hot", num), 3, 1) == 1 || x.Prop.ID >= "C13"
	} else {
		zzsim.Hot = false
	}
	r := zzsim.Exec(c, body)
	zzsim.Hot = false
	x.Steps += r.Steps
	x.Clock += r.Clock
	x.Switch += r.Switches
	x.Preempt += r.Preempts
	x.Stalls += r.Stalls
	x.Tasks += int64(r.Tasks)
	x.Diverge += r.Divergent
	x.Hash = (x.Hash^r.Hash)*1099511628211 ^ x.Hash>>31
	if adversarial {
		if r.Preempts > 0 {
			x.faults["preemption"] += r.Preempts
			x.nontriv = true
		}
		if r.Stalls > 0 {
			x.faults["stalled worker"] += r.Stalls
		}
		if r.Pauses > 0 {
			x.faults["paused task"] += r.Pauses
			x.nontriv = true
		}
		if r.Switches > 0 && r.Tasks > 1 {
			x.nontriv = true
		}
		x.probes["policy "+c.Policy]++
	}
	if x.record {
		x.Schedul[num] = r.Decisions
	}
	if r.Outcome == "panic" && !ofTheCode(r.Stack) {
		x.panicked(r.Detail, r.Stack)
	} else if r.Outcome != "ok" {
		x.Failf(r.Outcome, "%s: %s", r.Outcome, r.Detail)
	}
	return r
}

// Elems draws n field elements of the kind the run uses.
func (x *X) Elems(name string, n int) []fr.Element {
	kind := x.Pick(name+".kind", 8, 24, 8, 4, 2, 6, 2, 2, 1)
	g := x.RNG(name)
	mask, class, keep := int(g.N(1<<16)), int(g.N(1<<16)), g.N(2) == 0
	out := make([]fr.Element, n)
	for i := range out {
		switch kind {
		case 0: // small and distinct
			out[i].SetUint64(uint64(i) + 1)
		case 1:
			out[i] = randElem(g)
		case 2: // edge values mixed with random ones
			switch g.N(5) {
			case 0:
			case 1:
				out[i].SetOne()
			case 2:
				out[i].SetOne()
				out[i].Neg(&out[i])
			default:
				out[i] = randElem(g)
			}
		case 3: // sparse
			if g.N(4) == 0 {
				out[i] = randElem(g)
			}
		case 4: // zero
		case 5: // zero but for, or zero only in, a class of the index bits: whole chunks, halves or operands
			m := mask & (n - 1)
			if (i&m == class&m) == keep {
				out[i] = randElem(g)
			}
		case 6: // the same value everywhere, or twice in a row
			if i == 0 || (mask&1 == 0 && i&1 == 0) {
				out[i] = randElem(g)
			} else {
				out[i] = out[i-1]
			}
		case 7: // values that cancel out in pairs at some distance
			if d := 1 << (uint(mask) % 5); i&d != 0 && i >= d {
				out[i].Neg(&out[i-d])
			} else {
				out[i] = randElem(g)
			}
		case 8: // representations with empty words
			out[i] = randElem(g)
			for k := range out[i] {
				if g.N(3) == 0 {
					out[i][k] = 0
				}
			}
		}
	}
	return out
}

func randElem(g *zzsim.RNG) fr.Element {
	var e fr.Element
	for i := 0; i < 4; i++ {
		e[i] = g.U()
	}
	e[3] &= 0x0fffffffffffffff // below the modulus
	return e
}

func (x *X) knobs() string {
	names := append([]string{}, x.order...)
	sort.Strings(names)
	var b strings.Builder
	for _, n := range names {
		fmt.Fprintf(&b, "%s=%d ", n, x.vals[n][0])
	}
	return b.String()
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

func toJSON(v any) string {
	b, err := json.Marshal(v)
	must(err)
	return string(b)
}

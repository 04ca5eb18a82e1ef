//go:build go1.21

// Package zzsim is the deterministic runtime the instrumented code runs on: one
// task runs at a time and a seeded policy (or a recorded schedule) decides every
// switch. Outside a run every operation falls back to the real one.
package zzsim

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

const forever = int64(1) << 61

// left is the number of yield points the current task may pass before a decision.
var left = forever

// Hot switches on the yield points inside the hash package.
var Hot bool

// R is the current run, nil outside a run.
var R *Run

// Y is a yield point.
func Y() {
	left--
	if left < 0 {
		slow()
	}
}

// YH is a yield point of the hash package.
func YH() {
	if Hot {
		left--
		if left < 0 {
			slow()
		}
	}
}

var loops = forever

// YC counts loop iterations of the hash package, without a scheduling decision.
func YC() {
	loops--
	if loops < 0 {
		tooLong()
	}
}

func tooLong() {
	r := R
	if r == nil || r.killing {
		loops = forever
		return
	}
	r.settle(r.cur)
	r.stop("stepcap", "a loop of the hash package does not end; task "+r.cur.Path)
	r.park(r.cur)
}

// Late returns its argument after a yield point: a write of an already computed value.
func Late[T any](v T) T {
	Y()
	return v
}

// LateH is Late for the hash package.
func LateH[T any](v T) T {
	YH()
	return v
}

const (
	stReady = iota
	stRunning
	stBlocked
	stDone
)

// Task is a simulated goroutine.
type Task struct {
	Path     string
	id       int
	kids     int
	state    int
	wake     chan struct{}
	exited   chan struct{}
	step     int64 // yield points passed
	given    int64
	since    int64 // yield points passed since scheduled in by another task
	waits    int64 // number of times it blocked
	prio     int64
	stall    int64 // step of its next stall, 0 if none
	until    int64 // stalled until this global step
	pause    int64 // step of its next pause, 0 if none
	where    string
	selDone  bool
	harness  bool
	spawnPos string
}

// Decision is a recorded choice: at (Task, At) the scheduler went to Next. At is
// a local step for a preemption ("p") or a pause ("s", For nanoseconds), a wait
// number for a block ("b").
type Decision struct {
	Task string `json:"t"`
	Kind string `json:"k"`
	At   int64  `json:"at"`
	Next string `json:"n,omitempty"`
	For  int64  `json:"for,omitempty"`
}

// Config configures a run.
type Config struct {
	Seed     uint64
	Policy   string // random, pct, stall, fifo, lifo, lockstep
	Mean     int64  // mean budget between decisions
	Depth    int    // change points (pct) or stall percentage (stall)
	Horizon  int64  // expected number of steps (pct)
	StallLen int64
	// PausePct of the tasks lose the processor for up to PauseMax nanoseconds of simulated time.
	PausePct int64
	PauseMax int64
	NCPU     int
	StepCap  int64
	Record   bool
	Replay   bool
	Schedule []Decision
	// OnStep is called at every decision point, inside the scheduler (must not block).
	OnStep func()
}

// Result is what happened in a run.
type Result struct {
	Outcome   string // ok, deadlock, panic, stepcap
	Detail    string
	Stack     string // of a panic
	Leaked    []string
	Steps     int64
	Clock     int64
	Switches  int64
	Preempts  int64
	Stalls    int64
	Pauses    int64
	Tasks     int
	MaxAlive  int
	Hash      uint64
	Decisions []Decision
	Divergent int64
}

// Run is a simulated execution.
type Run struct {
	cfg      Config
	rng      RNG
	tasks    []*Task
	ready    []*Task
	cur      *Task
	steps    int64
	skipped  int64
	clock    int64
	idle     int64
	timers   []*timer
	timerSeq int64
	chans    map[uintptr]*chanState
	done     chan struct{}
	killing  bool
	finished bool
	res      Result
	change   []int64
	low      int64
	over     map[string][]Decision
	overB    map[string]map[int64]string
	alive    int
	randTask RNG
	id       int64
	seq      int64
	mainDone bool
	budgetX  int64
}

var runID int64

// fairness: a task that passed this many yield points without being switched out has to let others run.
const fairSteps = 400000

// after this many switches the budgets grow
const manySwitches = 60000

// Exec runs main as the first task of a new run and returns when it is over and quiescent.
func Exec(cfg Config, main func()) Result {
	if R != nil {
		panic("zzsim: nested run")
	}
	if cfg.StepCap == 0 {
		cfg.StepCap = 400 << 20
	}
	if cfg.Mean <= 0 {
		cfg.Mean = 1
	}
	if cfg.NCPU <= 0 {
		cfg.NCPU = 4
	}
	runID++
	r := &Run{cfg: cfg, rng: NewRNG(cfg.Seed), chans: map[uintptr]*chanState{}, done: make(chan struct{}, 1), id: runID, budgetX: 1}
	r.randTask = NewRNG(cfg.Seed ^ 0x5bd1e995)
	r.res.Hash = 14695981039346656037
	if cfg.Policy == "pct" {
		h := cfg.Horizon
		if h < 10 {
			h = 10
		}
		for i := 0; i < cfg.Depth; i++ {
			r.change = append(r.change, 1+r.rng.N(h))
		}
		sort.Slice(r.change, func(i, j int) bool { return r.change[i] < r.change[j] })
		r.low = -1
	}
	if cfg.Replay {
		r.over = map[string][]Decision{}
		r.overB = map[string]map[int64]string{}
		for _, d := range cfg.Schedule {
			if d.Kind != "b" {
				r.over[d.Task] = append(r.over[d.Task], d)
			} else {
				if r.overB[d.Task] == nil {
					r.overB[d.Task] = map[int64]string{}
				}
				r.overB[d.Task][d.At] = d.Next
			}
		}
	}
	R = r
	loops = 4 * cfg.StepCap
	t := r.newTask("0")
	t.harness = true
	r.start(t, func() {
		main()
		r.mainDone = true
	})
	r.take(t)
	r.cur = t
	r.resume(t)
	<-r.done
	r.finish()
	R = nil
	left = forever
	loops = forever
	r.res.Steps = r.steps
	r.res.Clock = r.clock + r.idle + r.steps
	r.res.Tasks = len(r.tasks)
	return r.res
}

func (r *Run) finish() {
	// whatever is still alive is killed, one at a time
	for _, t := range r.tasks {
		if t.state != stDone && !t.harness && r.res.Outcome == "ok" {
			r.res.Leaked = append(r.res.Leaked, t.Path+" ("+t.spawnPos+") blocked at "+t.where)
		}
	}
	r.killing = true
	for _, t := range r.tasks {
		if t.state != stDone {
			left = forever
			t.wake <- struct{}{}
			<-t.exited
		}
	}
	for _, s := range r.chans {
		s.writeBack()
	}
}

func (r *Run) newTask(path string) *Task {
	t := &Task{Path: path, id: len(r.tasks), wake: make(chan struct{}, 1), exited: make(chan struct{})}
	r.tasks = append(r.tasks, t)
	r.ready = append(r.ready, t)
	t.state = stReady
	r.alive++
	if r.alive > r.res.MaxAlive {
		r.res.MaxAlive = r.alive
	}
	if r.cfg.PausePct > 0 && r.rng.N(100) < r.cfg.PausePct {
		t.pause = 1 + r.rng.N(1+r.cfg.Horizon)
	}
	switch r.cfg.Policy {
	case "pct":
		t.prio = 1 + r.rng.N(1<<40)
	case "stall":
		if int(r.rng.N(100)) < r.cfg.Depth {
			t.stall = 1 + r.rng.N(1+r.cfg.Horizon)
		}
	}
	return t
}

func (r *Run) start(t *Task, f func()) {
	go func() {
		normal := false
		defer func() {
			if !normal {
				if e := recover(); e != nil && !r.killing {
					stack := string(debug.Stack())
					if r.res.Outcome == "" {
						r.res.Outcome = "panic"
						r.res.Stack = fmt.Sprint(e) + "\n" + stack
						r.res.Detail = fmt.Sprintf("task %s: %v\n%s", t.Path, e, trimStack(stack))
					}
				}
			}
			wasKilling := r.killing
			t.state = stDone
			if !wasKilling {
				r.exit(t)
			}
			close(t.exited)
		}()
		<-t.wake
		if r.killing {
			normal = true
			return
		}
		f()
		normal = true
	}()
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "zzsim") || strings.Contains(l, "runtime/") {
			continue
		}
		out = append(out, l)
		if len(out) > 40 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func caller(skip int) string {
	if R == nil || !R.cfg.Record {
		return "?"
	}
	for i := skip; i < skip+12; i++ {
		_, file, line, ok := runtime.Caller(i)
		if !ok {
			break
		}
		if strings.Contains(file, "/zzsim/") || strings.Contains(file, "/reflect/") {
			continue
		}
		if k := strings.LastIndex(file, "/"); k >= 0 {
			file = file[k+1:]
		}
		return file + ":" + strconv.Itoa(line)
	}
	return "?"
}

// settle books the yield points passed since the last settle.
func (r *Run) settle(t *Task) {
	used := t.given - left
	t.step += used
	t.since += used
	r.steps += used
	t.given = left
	if left < 0 {
		// the last yield point was the one that ran out
		t.given = 0
		left = 0
	}
}

func (r *Run) take(t *Task) {
	for i, x := range r.ready {
		if x == t {
			copy(r.ready[i:], r.ready[i+1:])
			r.ready = r.ready[:len(r.ready)-1]
			return
		}
	}
	panic("zzsim: task not ready")
}

// resume gives the token to t, which must have been taken from the ready list.
func (r *Run) resume(t *Task) {
	t.state = stRunning
	t.given = r.budget(t)
	left = t.given
	t.wake <- struct{}{}
}

func (r *Run) park(t *Task) {
	<-t.wake
	if r.killing {
		runtime.Goexit()
	}
}

// switchTo parks t and resumes next
func (r *Run) switchTo(t, next *Task) {
	r.take(next)
	r.cur = next
	next.since = 0
	r.res.Switches++
	r.resume(next)
	r.park(t)
}

func (r *Run) stop(outcome, detail string) {
	if r.res.Outcome == "" {
		r.res.Outcome, r.res.Detail = outcome, detail
	}
	if !r.finished {
		r.finished = true
		r.done <- struct{}{}
	}
}

// exit ends the current task
func (r *Run) exit(t *Task) {
	r.settle(t)
	r.alive--
	if r.res.Outcome != "" {
		r.stop("", "")
		return
	}
	next := r.pickBlocked(t)
	if next == nil {
		r.quiesce(t)
		return
	}
	r.take(next)
	r.cur = next
	next.since = 0
	r.resume(next)
}

func (r *Run) quiesce(t *Task) {
	if r.mainDone {
		r.stop("ok", "")
		return
	}
	var b strings.Builder
	n := 0
	for _, x := range r.tasks {
		if x.state == stBlocked {
			n++
			if n <= 12 {
				fmt.Fprintf(&b, "%s at %s; ", x.Path, x.where)
			}
		}
	}
	r.stop("deadlock", fmt.Sprintf("%d tasks blocked forever: %s", n, b.String()))
}

func (r *Run) mix(a, b, c uint64) {
	h := r.res.Hash
	h = (h ^ a) * 1099511628211
	h = (h ^ b) * 1099511628211
	h = (h ^ c) * 1099511628211
	h ^= h >> 29
	r.res.Hash = h
}

// pickBlocked chooses who runs when t cannot. nil if nobody can.
func (r *Run) pickBlocked(t *Task) *Task {
	for len(r.ready) == 0 {
		if !r.fireTimer() {
			return nil
		}
	}
	t.waits++
	r.onStep()
	def := r.ready[0]
	var next *Task
	if r.cfg.Replay {
		next = def
		if n, ok := r.overB[t.Path][t.waits]; ok {
			if x := r.find(n); x != nil {
				next = x
			} else {
				r.res.Divergent++
			}
		}
	} else {
		next = r.choose(nil)
	}
	r.mix(uint64(t.id)<<1|1, uint64(t.waits), uint64(next.id))
	if r.cfg.Record && next != def {
		r.res.Decisions = append(r.res.Decisions, Decision{Task: t.Path, Kind: "b", At: t.waits, Next: next.Path})
	}
	return next
}

// onStep observes the run between two steps; instrumented code it calls does not yield.
func (r *Run) onStep() {
	if r.cfg.OnStep == nil {
		return
	}
	l, c := left, loops
	left, loops = forever, forever
	r.cfg.OnStep()
	left, loops = l, c
}

func (r *Run) find(path string) *Task {
	for _, x := range r.ready {
		if x.Path == path {
			return x
		}
	}
	return nil
}

// slow is reached when the budget of the current task is used up.
func slow() {
	r := R
	if r == nil || r.killing {
		left = forever
		return
	}
	t := r.cur
	r.settle(t)
	if r.steps > r.cfg.StepCap {
		r.stop("stepcap", fmt.Sprintf("no end after %d steps; task %s at %s", r.steps, t.Path, caller(2)))
		r.park(t)
	}
	r.preemptPoint(t)
}

// pauseNow tells for how long t is paused at this point.
func (r *Run) pauseNow(t *Task) int64 {
	if r.cfg.Replay {
		l := r.over[t.Path]
		for len(l) > 0 && l[0].At < t.step {
			l = l[1:]
			r.res.Divergent++
		}
		r.over[t.Path] = l
		if len(l) > 0 && l[0].At == t.step && l[0].Kind == "s" {
			r.over[t.Path] = l[1:]
			return l[0].For
		}
		return 0
	}
	if t.pause == 0 || t.step < t.pause {
		return 0
	}
	t.pause = 0
	if r.rng.N(3) == 0 {
		t.pause = t.step + 1 + r.rng.N(1+r.cfg.Horizon)
	}
	return 1 + r.rng.N(r.cfg.PauseMax)
}

func (r *Run) preemptPoint(t *Task) {
	r.onStep()
	if len(r.timers) > 0 {
		r.dueTimers()
	}
	if d := r.pauseNow(t); d > 0 {
		r.res.Pauses++
		r.mix(uint64(t.id)<<1, uint64(t.step), uint64(d))
		if r.cfg.Record {
			r.res.Decisions = append(r.res.Decisions, Decision{Task: t.Path, Kind: "s", At: t.step, For: d})
		}
		r.addTimer(time.Duration(d), func(r *Run) { r.makeReady(t) })
		r.block("paused, " + caller(3))
		return
	}
	next := t
	if len(r.ready) > 0 {
		fair := t.since >= fairSteps
		if r.cfg.Replay {
			if fair {
				next = r.ready[0]
			}
			l := r.over[t.Path]
			for len(l) > 0 && l[0].At < t.step {
				l = l[1:]
				r.res.Divergent++
			}
			if len(l) > 0 && l[0].At == t.step {
				if x := r.find(l[0].Next); x != nil {
					next = x
				} else {
					r.res.Divergent++
				}
				l = l[1:]
			}
			r.over[t.Path] = l
		} else if fair {
			next = r.ready[r.rng.N(int64(len(r.ready)))]
			if r.cfg.Policy == "pct" {
				r.low--
				t.prio = r.low
			}
		} else {
			next = r.choose(t)
		}
	}
	if next != t {
		r.res.Preempts++
		r.mix(uint64(t.id)<<1, uint64(t.step), uint64(next.id))
		if r.cfg.Record {
			r.res.Decisions = append(r.res.Decisions, Decision{Task: t.Path, Kind: "p", At: t.step, Next: next.Path})
		}
		t.state = stReady
		r.ready = append(r.ready, t)
		r.switchTo(t, next)
		return
	}
	if t.since >= fairSteps {
		t.since = 0
	}
	t.given = r.budget(t)
	left = t.given
}

// budget returns how many yield points t may pass before the next decision;
// timers fire exactly when they are due, whatever the policy.
func (r *Run) budget(t *Task) int64 {
	b := r.policyBudget(t)
	if len(r.timers) > 0 {
		if d := r.timers[0].at - r.now() - 1; d < b {
			b = d
		}
		if b < 0 {
			b = 0
		}
	}
	return b
}

func (r *Run) policyBudget(t *Task) int64 {
	if r.cfg.Replay {
		b := fairSteps - t.since
		if l := r.over[t.Path]; len(l) > 0 && l[0].At-t.step-1 < b {
			b = l[0].At - t.step - 1
		}
		if b < 0 {
			b = 0
		}
		return b
	}
	b := int64(fairSteps)
	if t.pause > t.step {
		b = t.pause - t.step
	}
	switch r.cfg.Policy {
	case "random":
		m := r.cfg.Mean * r.budgetX
		b = min(b, r.rng.N(2*m+1))
		if r.res.Switches > manySwitches*r.budgetX {
			r.budgetX *= 8
		}
	case "lockstep":
		b = min(b, r.cfg.Mean*r.budgetX)
		if r.res.Switches > manySwitches*r.budgetX {
			r.budgetX *= 8
		}
	case "pct":
		for len(r.change) > 0 && r.change[0] <= r.steps {
			r.change = r.change[1:]
		}
		if len(r.change) > 0 {
			b = min(b, r.change[0]-r.steps)
		}
	case "stall":
		if t.stall > t.step {
			b = min(b, t.stall-t.step)
		}
		m := r.rng.N(2*r.cfg.Mean*r.budgetX*50 + 1)
		if m < b {
			b = m
		}
		if r.res.Switches > manySwitches*r.budgetX {
			r.budgetX *= 8
		}
	}
	if f := fairSteps - t.since; b > f {
		b = f
	}
	if b < 0 {
		b = 0
	}
	return b
}

// choose picks the next task; cur is nil if the current task cannot continue.
func (r *Run) choose(cur *Task) *Task {
	switch r.cfg.Policy {
	case "random":
		n := int64(len(r.ready))
		if cur == nil {
			return r.ready[r.rng.N(n)]
		}
		k := r.rng.N(n + 1)
		if k == n {
			return cur
		}
		return r.ready[k]
	case "lifo":
		if cur != nil {
			return cur
		}
		return r.ready[len(r.ready)-1]
	case "lockstep":
		return r.ready[0] // the longest waiting
	case "pct":
		if cur != nil {
			for len(r.change) > 0 && r.change[0] <= r.steps {
				r.change = r.change[1:]
				r.low--
				cur.prio = r.low
			}
		}
		best := cur
		for _, x := range r.ready {
			if best == nil || x.prio > best.prio {
				best = x
			}
		}
		return best
	case "stall":
		if cur != nil && cur.stall != 0 && cur.step >= cur.stall {
			cur.until = r.steps + 1 + r.rng.N(2*r.cfg.StallLen)
			r.res.Stalls++
			cur.stall = 0
			if r.rng.N(2) == 0 {
				cur.stall = cur.step + 1 + r.rng.N(1+r.cfg.Horizon)
			}
		}
		var ok [64]*Task
		c := ok[:0]
		for _, x := range r.ready {
			if x.until <= r.steps {
				c = append(c, x)
			}
		}
		if cur != nil && cur.until <= r.steps {
			c = append(c, cur)
		}
		if len(c) > 0 {
			return c[r.rng.N(int64(len(c)))]
		}
		// everyone is stalled: time passes until the first comes back
		best := cur
		for _, x := range r.ready {
			if best == nil || x.until < best.until {
				best = x
			}
		}
		if best.until > r.steps {
			r.idle += best.until - r.steps // reported only: the order of timers does not depend on it
		}
		best.until = 0
		return best
	}
	// fifo
	if cur != nil {
		return cur
	}
	return r.ready[0]
}

// makeReady moves a blocked task to the ready list.
func (r *Run) makeReady(t *Task) {
	if t.state != stBlocked {
		panic("zzsim: makeReady on a task that is not blocked")
	}
	t.state = stReady
	r.ready = append(r.ready, t)
	if r.cfg.Policy == "pct" && !r.cfg.Replay && r.cur != nil && r.cur.state == stRunning && t.prio > r.cur.prio {
		r.soon()
	}
}

// soon makes the current task come to a decision at its next yield point
func (r *Run) soon() {
	r.settle(r.cur)
	r.cur.given = 0
	left = 0
}

// block suspends the current task until makeReady.
func (r *Run) block(where string) {
	if r.killing {
		runtime.Goexit()
	}
	t := r.cur
	r.settle(t)
	t.state = stBlocked
	t.where = where
	next := r.pickBlocked(t)
	if next == nil {
		r.quiesce(t)
		r.park(t)
		return
	}
	if next == t {
		// a timer made it ready again
		r.take(t)
		t.since = 0
		t.state = stRunning
		t.given = r.budget(t)
		left = t.given
		return
	}
	r.switchTo(t, next)
}

// Gosched lets another task run.
func Gosched() {
	r := R
	if r == nil {
		runtime.Gosched()
		return
	}
	if r.killing {
		return
	}
	t := r.cur
	r.settle(t)
	if len(r.ready) == 0 {
		if len(r.timers) > 0 {
			r.fireTimer()
		}
		if len(r.ready) == 0 {
			// spinning alone: time passes
			r.steps += 100
			if r.steps > r.cfg.StepCap {
				r.stop("stepcap", fmt.Sprintf("no end after %d steps; task %s spins at %s", r.steps, t.Path, caller(2)))
				r.park(t)
			}
			t.given = r.budget(t)
			left = t.given
			return
		}
	}
	t.state = stBlocked
	next := r.pickBlocked(t)
	t.state = stReady
	r.ready = append(r.ready, t)
	r.switchTo(t, next)
}

// spawn registers a new task running f.
func (r *Run) spawn(f func(), harness bool) *Task {
	p := r.cur
	p.kids++
	t := r.newTask(p.Path + "." + strconv.Itoa(p.kids))
	t.harness = harness
	t.spawnPos = caller(3)
	r.start(t, f)
	if r.cfg.Policy == "pct" && !r.cfg.Replay && t.prio > p.prio {
		r.soon()
	}
	return t
}

// Go starts f as a new task.
func Go(f func()) {
	if R == nil {
		go f()
		return
	}
	if R.killing {
		return
	}
	R.spawn(f, false)
}

// GoHarness starts a task that belongs to the workload (never counted as leaked).
func GoHarness(f func()) {
	R.spawn(f, true)
}

// Wrap returns a function that starts f as a new task with the arguments it is given.
func Wrap[F any](f F) F {
	switch g := any(f).(type) {
	case func():
		return any(func() { Go(g) }).(F)
	}
	v := reflect.ValueOf(f)
	return reflect.MakeFunc(v.Type(), func(args []reflect.Value) []reflect.Value {
		variadic := v.Type().IsVariadic()
		Go(func() {
			if variadic {
				v.CallSlice(args)
			} else {
				v.Call(args)
			}
		})
		out := make([]reflect.Value, v.Type().NumOut())
		for i := range out {
			out[i] = reflect.Zero(v.Type().Out(i))
		}
		return out
	}).Interface().(F)
}

// Seq returns the next event number of the run.
func Seq() int64 {
	R.seq++
	return R.seq
}

// CurPath returns the identity of the running task.
func CurPath() string { return R.cur.Path }

// InRun tells whether a run is in progress.
func InRun() bool { return R != nil && !R.killing }

// NumCPU, GOMAXPROCS and NumGoroutine answer for the simulated machine.
func NumCPU() int {
	if R == nil {
		return 4
	}
	return R.cfg.NCPU
}

// GOMAXPROCS returns the number of simulated processors; they cannot be changed.
func GOMAXPROCS(int) int { return NumCPU() }

// NumGoroutine returns the number of live tasks.
func NumGoroutine() int {
	if R == nil {
		return 1
	}
	return R.alive
}

// RNG is splitmix64.
type RNG struct{ s uint64 }

// NewRNG seeds a generator.
func NewRNG(seed uint64) RNG { return RNG{seed} }

// U returns 64 random bits.
func (g *RNG) U() uint64 {
	g.s += 0x9e3779b97f4a7c15
	z := g.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a number in [0, n).
func (g *RNG) N(n int64) int64 {
	if n <= 1 {
		return 0
	}
	return int64(g.U() % uint64(n))
}

// Steps returns the number of yield points passed in the run.
func Steps() int64 { return R.steps + R.cur.given - left }

//go:build go1.21 && (p_all || p_c16)

package main

import (
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"unsafe"

	"gkr-mimc/common"
	"gkr-mimc/zzverif/zzsim"
)

func init() {
	props["C16"] = &Prop{
		ID: "C16", Quick: 400000, Short: true, Deep: 20000000,
		Rule: "A run is a history of measurements (and of settings changed and read) in one simulated process: the files, the execution tracer, the profiler and the environment are simulated, fail at drawn operations, and the measured function returns, panics, ends its goroutine, starts tasks or measures something itself; one or two tasks measure at the same time.",
		Real: []string{"common (environment and profiling helpers)", "testing.B timers"},
		Stub: []string{"files, runtime/trace, pkg/profile, environment, process exit", "scheduler"},
		Run:  runC16,
	}
}

// bench is a benchmark object as the testing package makes them.
type bench struct {
	b     *testing.B
	timer reflect.Value
}

func newBench(name string) *bench {
	b := &testing.B{N: 1}
	v := reflect.ValueOf(b).Elem()
	if f := v.FieldByName("name"); f.IsValid() && f.Kind() == reflect.String {
		*(*string)(unsafe.Pointer(f.UnsafeAddr())) = name
	}
	return &bench{b, v.FieldByName("timerOn")}
}

// on tells whether the benchmark's timer runs.
func (b *bench) on() bool {
	if b.timer.IsValid() && b.timer.Kind() == reflect.Bool {
		return b.timer.Bool()
	}
	t := b.b.Elapsed()
	for k := 0; k < 1000; k++ {
		if b.b.Elapsed() != t {
			return true
		}
	}
	return false
}

var measuredPanic = errors.New("the measured function gave up")

func runC16(x *X) {
	if x.Chance("settings", 35) {
		settings(x)
		return
	}
	tasks := 1 + x.Pick("tasks", 7, 2, 1)
	s := &zzsim.OS{Env: map[string]string{}}
	faultPct := []int{0, 5, 15, 40}[x.Pick("faultRate", 3, 2, 2, 1)]
	nOps := 0
	errnos := []error{syscall.ENOENT, syscall.EACCES, syscall.ENOSPC, syscall.EMFILE, syscall.EROFS, syscall.EIO}
	// what the environment told the running task
	type session struct {
		b                *bench
		traced, profiled bool
		failed           error
		runs             int
		fatal            bool
		timedOutside     string
		began            bool
		over             bool
	}
	cur := map[string]*session{}
	active := 0
	s.Fail = func(op, path string) error {
		nOps++
		if op == "close" || op == "trace stop" || op == "profile stop" || op == "sync" {
			return nil
		}
		if !x.Chance("fault"+itoa(nOps), faultPct) {
			return nil
		}
		err := errnos[x.I("errno"+itoa(nOps), 0, len(errnos)-1)]
		x.Fault(op + " fails")
		return err
	}
	s.Event = func(op, path string, err error) {
		c := cur[zzsim.CurPath()]
		if c == nil {
			return
		}
		if err != nil && op != "write" {
			c.failed = err
			c.fatal = strings.HasPrefix(op, "profile")
		}
		if op == "write after close" {
			x.Failf("trace-lost", "the trace file was closed before the tracer had written everything")
		}
		if c.b.on() && c.timedOutside == "" && op != "write" {
			c.timedOutside = op
		}
	}
	type plan struct {
		name             string
		traced, profiled bool
		kind             int
		timer            bool
	}
	plans := make([][]plan, tasks)
	kinds := []string{"returns", "panics", "ends its goroutine", "starts tasks", "measures itself", "uses the timer"}
	for t := range plans {
		for k := x.I(fmt.Sprintf("t%d.n", t), 1, 5); k > 0; k-- {
			p := fmt.Sprintf("t%d.%d.", t, k)
			plans[t] = append(plans[t], plan{fmt.Sprintf("Bench%d", x.I(p+"name", 0, 3)), x.Chance(p+"traced", 50), x.Chance(p+"profiled", 40), x.Pick(p+"kind", 6, 2, 2, 2, 2, 1), x.Chance(p+"timer", 30)})
		}
	}
	x.Note("measurements %v, fault rate %d%%", plans, faultPct)
	tracing := func() bool { return s.Tracer != nil }
	measure := func(t, k int, p plan) (again bool) {
		me := zzsim.CurPath()
		b := newBench(p.name)
		c := &session{b: b, traced: p.traced, profiled: p.profiled}
		if p.timer {
			b.b.StartTimer() // as the testing package leaves it
			c.timedOutside = "-"
		}
		cur[me] = c
		active++
		alone := active == 1 && tasks == 1
		nFiles := len(s.Files)
		tracedBefore := tracing()
		what := fmt.Sprintf("task %d, measurement %d (%+v, the function %s)", t, k, p, kinds[p.kind])
		var returned bool
		var thrown any
		check := func() {
			delete(cur, me)
			active--
			x.Evals++
			if s.Exited != "" && c.failed == nil && thrown == nil {
				return // another task ended the process
			}
			if _, ok := thrown.(zzsim.ExitPanic); ok {
				if c.runs != 0 {
					x.Failf("runs", "%s: the process ended for want of a profile after the function had run", what)
				}
				return
			}
			if c.failed != nil || thrown != nil && c.runs == 0 { // the set-up was refused
				if c.runs != 0 {
					x.Failf("unreported", "%s: the function ran although the set-up failed (%v)", what, c.failed)
				} else if returned {
					x.Failf("unreported", "%s: a failed set-up (%v) was not reported", what, c.failed)
				} else if c.failed == nil && !(p.traced && tasks > 1) {
					x.Failf("refused", "%s: refused without a reason: %v", what, thrown)
				}
			} else {
				if c.runs != 1 {
					x.Failf("runs", "%s: the measured function ran %d times", what, c.runs)
				}
				switch p.kind {
				case 1:
					if thrown != measuredPanic {
						x.Failf("panic", "%s: the function's panic became %v (returned: %v)", what, thrown, returned)
					}
				case 2:
					if returned || thrown != nil {
						x.Failf("goexit", "%s: the goroutine was to end", what)
					}
				default:
					if thrown != nil {
						x.Failf("panic", "%s: panicked: %v", what, thrown)
					}
				}
				if c.timedOutside != "" && c.timedOutside != "-" {
					x.Failf("timer", "%s: the timer ran during %q", what, c.timedOutside)
				}
				if b.on() {
					x.Failf("timer", "%s: the timer still runs", what)
				}
			}
			if alone {
				if tracing() != tracedBefore {
					x.Failf("left-behind", "%s: the tracer still runs", what)
				}
				if s.Prof != nil {
					x.Failf("left-behind", "%s: the profiler still runs", what)
				}
				for _, f := range s.Files[nFiles:] {
					if !f.Closed {
						x.Failf("left-behind", "%s: file %s is still open", what, f.Path)
					}
					if !strings.Contains(f.Path, p.name) {
						x.Failf("file", "%s: the trace went to %s", what, f.Path)
					}
				}
			}
		}
		defer func() {
			if returned {
				return
			}
			thrown = recover()
			check()
			again = thrown != nil // the goroutine goes on if it was a panic
		}()
		fn := func() {
			c.runs++
			if !b.on() {
				x.Failf("timer", "%s: the timer does not run during the measured function", what)
			}
			if alone {
				if p.traced != tracing() {
					x.Failf("tracer", "%s: tracer running: %v", what, tracing())
				}
				if p.profiled != (s.Prof != nil) {
					x.Failf("profiler", "%s: profiler running: %v", what, s.Prof != nil)
				}
				if s.Prof != nil && !strings.Contains(s.Prof.Path, p.name) {
					x.Failf("file", "%s: the profile goes to %s", what, s.Prof.Path)
				}
			}
			if s.Tracer != nil && p.traced {
				s.Tracer.Write([]byte("event "))
			}
			zzsim.Y()
			switch p.kind {
			case 1:
				panic(measuredPanic)
			case 2:
				runtime.Goexit()
			case 3:
				done := make(chan int, 3)
				for i := 0; i < 3; i++ {
					zzsim.GoHarness(func() { zzsim.Y(); zzsim.Send(done, 1) })
				}
				for i := 0; i < 3; i++ {
					zzsim.Recv(done)
				}
			case 4:
				inner := newBench(p.name + "inner")
				n := 0
				common.ProfileTrace(inner.b, false, false, func() { n++ })
				if n != 1 || inner.on() {
					x.Failf("runs", "%s: the inner function ran %d times", what, n)
				}
			case 5: // as benchmarks that exclude their preparation do
				b.b.StopTimer()
				zzsim.Y()
				b.b.ResetTimer()
				b.b.StartTimer()
			}
		}
		common.ProfileTrace(b.b, p.profiled, p.traced, fn)
		returned = true
		check()
		return true
	}
	zzsim.Sys = s
	defer func() { zzsim.Sys = nil }()
	x.Sim(func() {
		zzsim.Sys = s
		for t := range plans {
			t := t
			zzsim.GoHarness(func() {
				for k, p := range plans[t] {
					k, p := k, p
					if s.Exited != "" {
						return
					}
					done := make(chan bool, 1)
					zzsim.GoHarness(func() { // the testing package gives each benchmark a goroutine
						ok := false
						defer func() { zzsim.Send(done, ok) }()
						ok = measure(t, k, p)
					})
					zzsim.Recv(done)
				}
			})
		}
	})
}

// settings reads settings that change.
func settings(x *X) {
	type variable struct {
		name string
		get  func() (int, bool)
		flag bool
	}
	one := func(f func() bool) func() (int, bool) {
		return func() (int, bool) {
			if f() {
				return 1, true
			}
			return 0, true
		}
	}
	num := func(f func() int) func() (int, bool) { return func() (int, bool) { return f(), true } }
	vars := []variable{{"BN_GKR", num(common.GetBN), false}, {"NCHUNKS_GKR", num(common.GetNChunks), false}, {"NPROCESSES_ENV", num(common.GetNProcesses), false},
		{"PROFILE_GKR", one(common.GetProfiled), true}, {"TRACE_GKR", one(common.GetTraced), true}}
	values := []string{"1", "0", "7", "16", "-3", "+4", "08", "", " 5", "5 ", "5x", "true", "1.0", "0x10", "1_0", "99999999999999999999", "11", "one"}
	s := &zzsim.OS{Env: map[string]string{"GOMAXPROCS": "3", "BN": "5", "NCHUNKS": "5"}}
	zzsim.Sys = s
	defer func() { zzsim.Sys = nil }()
	n := x.I("steps", 1, 12)
	type step struct{ v, value, reads int }
	var steps []step
	for k := 0; k < n; k++ {
		st := step{x.I(fmt.Sprintf("step%d.var", k), 0, len(vars)-1), x.I(fmt.Sprintf("step%d.value", k), -1, len(values)-1), x.I(fmt.Sprintf("step%d.reads", k), 0, 2)}
		steps = append(steps, st)
	}
	x.Note("settings %v", steps)
	check := func(v variable) {
		x.Evals++
		raw, set := s.Env[v.name]
		var got int
		var thrown any
		func() {
			defer func() { thrown = recover() }()
			got, _ = v.get()
		}()
		if v.flag {
			want := 0
			if raw == "1" {
				want = 1
			}
			if thrown != nil || got != want {
				x.Failf("flag", "%s=%q (set: %v) reads as %v (panic: %v)", v.name, raw, set, got == 1, thrown)
			}
			return
		}
		want, err := strconv.Atoi(raw)
		if !set {
			err = errors.New("not set")
		}
		switch {
		case err == nil && (thrown != nil || got != want):
			x.Failf("number", "%s=%q reads as %d (panic: %v)", v.name, raw, got, thrown)
		case err != nil && thrown == nil:
			x.Failf("guessed", "%s=%q (set: %v) reads as %d and is not reported", v.name, raw, set, got)
		case err != nil && !strings.Contains(fmt.Sprint(thrown), v.name):
			x.Failf("message", "%s=%q (set: %v) is reported as %v", v.name, raw, set, thrown)
		}
	}
	x.Sim(func() {
		// each variable is changed and read by a task of its own
		for i := range vars {
			i := i
			zzsim.GoHarness(func() {
				check(vars[i])
				for _, st := range steps {
					if st.v != i {
						continue
					}
					if st.value < 0 {
						delete(s.Env, vars[i].name)
						x.probes["setting removed"]++
					} else {
						s.Env[vars[i].name] = values[st.value]
						x.probes["setting changed"]++
					}
					for r := 0; r <= st.reads; r++ {
						check(vars[i])
					}
				}
			})
		}
	})
}

//go:build go1.21 && (p_all || p_c20)

package main

import (
	"fmt"
	mathbits "math/bits"

	"gkr-mimc/common"
	"gkr-mimc/zzverif/zzsim"
	sync "gkr-mimc/zzverif/zzsync"
)

func init() {
	props["C20"] = &Prop{
		ID: "C20", Quick: 120000, Short: true, Deep: 6000000,
		Rule: "One to twelve tasks hold the permits of one to three semaphores for drawn times, hand them over, die holding them, or wait for each other while holding them all; at every step the number of holders is compared with the permits. Work of drawn sizes is split into ranges by several tasks and done by workers that a semaphore admits.",
		Real: []string{"common (semaphore, work splitting, logarithms)"},
		Stub: []string{"scheduler", "Go channels and sync (simulated)"},
		Run:  runC20,
	}
}

type semOp struct {
	kind int // 0 hold, 1 hold two semaphores, 2 hand over to another task, 3 die holding, 4 split work, 5 sizes
	sem  int
	long int
}

func runC20(x *X) {
	nSem := 1 + x.Pick("semaphores", 5, 2, 1)
	permits := make([]int, nSem)
	for i := range permits {
		permits[i] = 1 + x.Pick("permits"+itoa(i), 4, 4, 3, 2, 1, 1, 1, 1)
		if x.Chance("permits"+itoa(i)+".many", 3) {
			permits[i] = x.I("permits"+itoa(i)+".n", 9, 200)
		}
	}
	tasks := x.I("tasks", 1, 12)
	if x.Chance("manyTasks", 3) {
		tasks = x.I("tasks.n", 13, 80)
	}
	jobs := make([][]semOp, tasks)
	for t := range jobs {
		for k := x.I(fmt.Sprintf("t%d.n", t), 1, 5); k > 0; k-- {
			p := fmt.Sprintf("t%d.%d.", t, k)
			jobs[t] = append(jobs[t], semOp{x.Pick(p+"kind", 10, 3, 3, 2, 2, 2), x.I(p+"sem", 0, nSem-1), x.I(p+"long", 0, 12)})
		}
	}
	together := x.Chance("together", 50)
	closed := x.Chance("close", 50)
	sizes := x.RNG("sizes")
	x.Note("permits %v, %d tasks, jobs %v, together %v", permits, tasks, jobs, together)

	sems := make([]common.Semaphore, nSem)
	held := make([]int, nSem)
	enter := func(i int) {
		sems[i].Acquire()
		held[i]++
		if held[i] > permits[i] {
			x.Failf("too-many", "%d tasks hold a semaphore of %d", held[i], permits[i])
		}
	}
	leave := func(i int) {
		held[i]--
		sems[i].Release()
	}
	work := func(o semOp) {
		for k := 0; k < o.long; k++ {
			zzsim.Y()
		}
		if o.long > 10 {
			zzsim.Sleep(1 << 20)
		}
	}
	var gone sync.WaitGroup
	var splits []splitUp
	do := func(o semOp) {
		switch o.kind {
		case 0:
			enter(o.sem)
			work(o)
			leave(o.sem)
		case 1:
			for i := o.sem; i < nSem && i < o.sem+2; i++ {
				enter(i)
			}
			work(o)
			for i := o.sem; i < nSem && i < o.sem+2; i++ {
				leave(i)
			}
		case 2: // another task gives the permit back
			enter(o.sem)
			gone.Add(1)
			zzsim.GoHarness(func() {
				work(o)
				leave(o.sem)
				gone.Done()
			})
		case 3:
			func() {
				defer func() { recover() }()
				enter(o.sem)
				defer leave(o.sem)
				work(o)
				x.Fault("holder dies")
				panic("harness: the holder dies")
			}()
		case 4:
			splits = append(splits, splitWork(x, sizes, o)...)
		case 5:
			for k := 0; k <= o.long; k++ {
				if wrong := wrongSizes(sizes); wrong != "" {
					x.Failf("size", "%s", wrong)
				}
				zzsim.Y()
			}
		}
		x.Evals++
	}
	// all permits can be held at the same time, and not one more
	all := func(i int) {
		n := permits[i]
		here, late := 0, false
		done := make(chan struct{})
		var wg sync.WaitGroup
		start := func(f func()) {
			wg.Add(1)
			zzsim.GoHarness(func() {
				defer wg.Done()
				f()
			})
		}
		for k := 0; k < n; k++ {
			start(func() {
				enter(i)
				if here++; here < n {
					zzsim.Recv(done)
				} else {
					x.Probe("all permits held")
					start(func() {
						sems[i].Acquire()
						if !late {
							x.Failf("too-many", "a task got in while all %d permits were held", n)
						}
						sems[i].Release()
					})
					for k := 0; k < 12; k++ {
						zzsim.Y()
					}
					late = true
					zzsim.Close(done)
				}
				leave(i)
			})
		}
		wg.Wait()
	}
	r := x.Sim(func() {
		for i := range sems {
			sems[i] = common.NewSemaphore(permits[i])
		}
		if together {
			for i := range sems {
				all(i)
			}
		}
		var wg sync.WaitGroup
		for t := range jobs {
			t := t
			wg.Add(1)
			zzsim.GoHarness(func() {
				defer wg.Done()
				for _, o := range jobs[t] {
					do(o)
				}
			})
		}
		wg.Wait()
		gone.Wait()
		for i := range sems {
			if held[i] != 0 {
				panic("harness: a semaphore is held")
			}
			all(i) // nothing was lost
			if closed {
				sems[i].Close()
			}
		}
	})
	if r.Outcome != "ok" || x.Failed() {
		return
	}
	for _, s := range splits {
		if fmt.Sprint(s.got) != s.want {
			x.Failf("result-changed", "ranges changed after they were returned: %v instead of %s", s.got, s.want)
			return
		}
	}
}

type splitUp struct {
	got  []common.ChunkRange
	want string
}

// splitWork splits work of a drawn size, has it done and checks that everything is done once.
func splitWork(x *X, g *zzsim.RNG, o semOp) (kept []splitUp) {
	cores := 1 + int(g.N([]int64{4, 16, 130}[g.N(3)]))
	var n int
	switch g.N(5) {
	case 0:
		n = int(g.N(20000))
	case 1: // about a multiple of the smallest range
		n = common.MinChunkSize*int(g.N(9)) + int(g.N(5)) - 2
	case 2: // about a multiple of the cores
		n = cores*int(g.N(1<<uint(1+g.N(20)))) + int(g.N(3)) - 1
	case 3:
		n = 1<<uint(g.N(40)) + int(g.N(3)) - 1
	case 4:
		n = int(g.U() >> uint(2+g.N(60)))
	}
	if n < 0 {
		n = 0
	}
	parts := common.IntoChunkRanges(cores, n)
	next := 0
	for i, r := range parts {
		if r.Begin != next || r.End <= r.Begin {
			x.Failf("split", "%d entries for %d cores: range %d is %v, the one before ends at %d", n, cores, i, r, next)
			return
		}
		if i+1 < len(parts) && r.End-r.Begin < common.MinChunkSize {
			x.Failf("split", "%d entries for %d cores: range %d is %v, less than the minimum", n, cores, i, r)
			return
		}
		next = r.End
	}
	if next != n {
		x.Failf("split", "%d entries for %d cores: the ranges end at %d", n, cores, next)
		return
	}
	if len(parts) > cores+1 {
		x.Failf("split", "%d entries for %d cores: %d ranges", n, cores, len(parts))
		return
	}
	if n <= 20000 {
		marks := make([]int, n)
		sem := common.NewSemaphore(cores)
		var wg sync.WaitGroup
		busy := 0
		for _, r := range parts {
			r := r
			wg.Add(1)
			zzsim.GoHarness(func() {
				defer wg.Done()
				sem.Acquire()
				if busy++; busy > cores {
					x.Failf("too-many", "%d workers on %d cores", busy, cores)
				}
				for i := r.Begin; i < r.End; i++ {
					if i%4000 == 0 {
						zzsim.Y()
					}
					marks[i]++
				}
				busy--
				sem.Release()
			})
		}
		wg.Wait()
		for i, m := range marks {
			if m != 1 {
				x.Failf("split", "%d entries for %d cores: entry %d is done %d times", n, cores, i, m)
				return
			}
		}
		x.Probe("split work done")
	}
	if g.N(2) == 0 { // the ranges are the caller's
		for i := range parts {
			parts[i] = common.ChunkRange{Begin: -1, End: -1}
		}
	}
	return []splitUp{{parts, fmt.Sprint(parts)}}
}

func wrongSizes(g *zzsim.RNG) string {
	a := int(g.U() >> uint(1+g.N(63)))
	if g.N(2) == 0 {
		a = 1<<uint(g.N(62)) + int(g.N(3)) - 1
	}
	if a > 0 {
		fl, ce := common.Log2Floor(a), common.Log2Ceil(a)
		wantFl := mathbits.Len64(uint64(a)) - 1
		wantCe := mathbits.Len64(uint64(a - 1))
		if fl != wantFl || ce != wantCe {
			return fmt.Sprintf("logarithm of %d: %d and %d instead of %d and %d", a, fl, ce, wantFl, wantCe)
		}
	}
	b := int(g.U() >> uint(g.N(64)))
	switch g.N(4) {
	case 0:
		b = a
	case 1:
		b = -a
	}
	lo, hi := a, b
	if lo > hi {
		lo, hi = hi, lo
	}
	if common.Min(a, b) != lo || common.Max(a, b) != hi {
		return fmt.Sprintf("of %d and %d: %d is the smaller and %d the larger", a, b, common.Min(a, b), common.Max(a, b))
	}
	return ""
}

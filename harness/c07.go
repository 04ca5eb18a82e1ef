//go:build go1.21 && (p_all || p_c07)

package main

import (
	"fmt"
	"sort"

	"gkr-mimc/common"
	"gkr-mimc/gkr"
	"gkr-mimc/zzverif/zzsim"
)

func init() {
	props["C07"] = &Prop{
		ID: "C07", Quick: 200000, Deep: 7200000,
		Rule: "Two kinds of runs: assignment, claim and proof with counting gates under a drawn schedule; histories of acquires and releases of the semaphore by many tasks, compared with a counting model.",
		Real: []string{"common (semaphore)", "circuit", "gkr prover", "sumcheck", "polynomial"},
		Stub: []string{"scheduler", "channels, sync, runtime", "gates count the workers inside and yield while evaluating"},
		Run:  runC07,
	}
}

func runC07(x *X) {
	switch x.Pick("what", 5, 4, 3) {
	case 1:
		semaphoreRun(x)
		return
	case 2:
		groupRun(x)
		return
	}
	spec := genCirc(x, "c.", circOpts{maxLayers: 3, maxWires: 4})
	sh := genShape(x, "", 5)
	if x.Chance("mid", 4) {
		spec, sh = drawMid(x, 8)
	}
	if x.Chance("tight", 50) {
		sh.cores = 1 + x.I("tightCores", 0, max(0, sh.chunks()-2))
	}
	in := x.Elems("inputs", 1<<(sh.bN+spec.Layers[0].In))
	x.Note("%s", describe(spec, sh))
	proveCores := sh.cores
	if x.Chance("otherCores", 40) {
		proveCores = genCores(x, "prove", sh.chunks())
	}
	w := &watch{}
	op := ""
	check := func() {
		x.Evals++
		if w.over {
			x.Failf("budget", "%s ran %d gate evaluations at once with a budget of %d: %s", op, w.max, w.limit, describe(spec, sh))
		}
		if w.max == w.limit {
			x.Probe("whole budget in use")
		}
		w.max, w.over = 0, false
	}
	nb := drawNeighbour(x, 25)
	w2 := &watch{}
	x.Sim(func() {
		if nb != nil { // another session, with a budget of its own
			x.Probe("another session at the same time")
			zzsim.GoHarness(func() {
				circ := nb.spec.build(w2)
				w2.limit = nb.sh.cores
				a := circ.Assign(split(nb.in, nb.sh.bN, nb.sh.logChunks), nb.sh.cores)
				p := gkr.NewProver(circ, a)
				p.Prove(nb.sh.cores)
				x.Evals++
				if w2.over {
					x.Failf("budget", "a session beside another ran %d gate evaluations at once with a budget of %d: %s", w2.max, w2.limit, describe(nb.spec, nb.sh))
				}
			})
		}
		circ := spec.build(w)
		op, w.limit = "Assign", sh.cores
		a := circ.Assign(split(in, sh.bN, sh.logChunks), sh.cores)
		check()
		p := gkr.NewProver(circ, a)
		w.limit = proveCores
		if x.Chance("claim", 40) {
			op = "GetClaim"
			qPrime, q := gkr.GetInitialQPrimeAndQ(sh.bN, spec.Layers[len(spec.Layers)-1].Out)
			sp := p.InitialRoundSumcheckProver(qPrime, q, proveCores)
			sp.GetClaim(proveCores)
			check()
		}
		op = "Prove"
		p.Prove(proveCores)
		check()
	})
}

// semaphoreRun drives the semaphore and checks its history against a counting model.
func semaphoreRun(x *X) {
	capacity := x.I("capacity", 1, 6)
	tasks := x.I("tasks", 1, 9)
	rounds := x.I("rounds", 1, 5)
	switch x.Pick("extent", 46, 2, 1, 1) {
	case 1: // a wide semaphore
		capacity = x.I("wideCapacity", 7, 80)
		tasks = x.I("wideTasks", 1, 100)
		x.Probe("wide semaphore")
	case 2: // a long history
		rounds = x.I("manyRounds", 6, 400)
		x.Probe("long semaphore history")
	case 3:
		capacity = x.I("hugeCapacity", 81, 5000)
	}
	holders := x.I("stuck", 0, capacity-1)                          // slots never given back while the others work
	crossed := x.Chance("crossed", 30)                              // a slot may be given back by another task
	shared := x.Chance("byValue", 50)                               // tasks use copies of the semaphore, as the code does
	closeAfter := x.Chance("close", 30) && holders == 0 && !crossed // close once everything is back
	x.Note("semaphore of %d, %d tasks, %d rounds, %d slots held", capacity, tasks, rounds, holders)
	type event struct {
		seq  int64
		kind int // 0 asks, 1 got, 2 gives back, 3 gave back
		task string
	}
	var hist []event
	log := func(kind int) { hist = append(hist, event{zzsim.Seq(), kind, zzsim.CurPath()}) }
	inside, peak := 0, 0
	doneTasks := 0
	after := 0
	x.Sim(func() {
		sem := common.NewSemaphore(capacity)
		for i := 0; i < holders; i++ {
			sem.Acquire()
			inside++
		}
		finished := make(chan struct{}, tasks)
		for k := 0; k < tasks; k++ {
			mine := &sem
			if shared {
				c := sem
				mine = &c
			}
			zzsim.GoHarness(func() {
				for j := 0; j < rounds; j++ {
					log(0)
					mine.Acquire()
					inside++
					log(1)
					if inside > peak {
						peak = inside
					}
					for y := zzsim.Coin(6); y > 0; y-- {
						zzsim.Y()
					}
					if zzsim.Coin(5) == 0 {
						zzsim.Sleep(100)
					}
					log(2)
					inside--
					if crossed {
						c := make(chan struct{}, 1)
						zzsim.GoHarness(func() {
							mine.Release()
							zzsim.Send(c, struct{}{})
						})
						zzsim.Recv(c)
					} else {
						mine.Release()
					}
					log(3)
				}
				doneTasks++
				zzsim.Send(finished, struct{}{})
			})
		}
		for k := 0; k < tasks; k++ {
			zzsim.Recv(finished)
		}
		// no slot was lost: the rest of the capacity can be taken at once
		for i := holders; i < capacity; i++ {
			sem.Acquire()
			after++
		}
		// and none was gained: one more has to wait
		extra := false
		admitted := make(chan struct{}, 1)
		zzsim.GoHarness(func() {
			sem.Acquire()
			extra = true
			zzsim.Send(admitted, struct{}{})
		})
		zzsim.Sleep(1 << 20)
		if extra {
			x.Failf("slots", "a semaphore of %d admitted %d holders after %d acquires and releases", capacity, capacity+1, tasks*rounds)
		}
		sem.Release()
		// (if it is never admitted, the run ends in a deadlock)
		zzsim.Recv(admitted)
		if closeAfter {
			for i := 0; i < capacity; i++ {
				sem.Release()
			}
			sem.Close()
		}
	})
	x.Evals += int64(len(hist))
	if x.fail != nil && x.fail.Class == "deadlock" {
		x.fail.Detail = fmt.Sprintf("semaphore of %d with %d slots held: %d of %d tasks finished, %d free slots taken afterwards; %s", capacity, holders, doneTasks, tasks, after, x.fail.Detail)
		return
	}
	// the history: between "got" and "gives back" a slot is held
	sort.Slice(hist, func(i, j int) bool { return hist[i].seq < hist[j].seq })
	held := holders
	for _, e := range hist {
		switch e.kind {
		case 1:
			held++
			if held > capacity {
				x.Failf("capacity", "%d holders of a semaphore of %d at event %d (task %s)", held, capacity, e.seq, e.task)
			}
		case 2:
			held--
		}
	}
	if peak == capacity {
		x.Probe("semaphore full")
	}
}

// groupRun has as many tasks as slots meet inside: nobody gives a slot back before all of the group
// hold one, so a waiter that is not admitted although a slot is free stops the run for good.
func groupRun(x *X) {
	capacity := x.I("capacity", 1, 6)
	holders := x.I("stuck", 0, capacity-1)
	groups := x.I("groups", 1, 5)
	if x.Chance("wide", 4) {
		capacity = x.I("wideCapacity", 7, 70)
		holders = capacity - x.I("free", 1, min(capacity, 20))
	}
	size := capacity - holders
	late := x.Chance("late", 40) // the tasks of a group come when the one before leaves
	x.Note("semaphore of %d, %d slots held, %d groups of %d", capacity, holders, groups, size)
	inside, met, waiting := 0, 0, 0
	x.Sim(func() {
		sem := common.NewSemaphore(capacity)
		for i := 0; i < holders; i++ {
			sem.Acquire()
		}
		leave := make([]chan struct{}, groups)
		for g := range leave {
			leave[g] = make(chan struct{}, size)
		}
		finished := make(chan struct{}, groups*size)
		var spawn func(n int)
		spawn = func(n int) {
			for ; n > 0; n-- {
				mine := sem
				zzsim.GoHarness(func() {
					waiting++
					mine.Acquire()
					waiting--
					inside++
					met++
					x.Evals++
					if inside > size {
						x.Failf("capacity", "%d holders of a semaphore of %d", inside+holders, capacity)
					}
					g := (met - 1) / size
					if met%size == 0 {
						if late && g+1 < groups {
							spawn(size)
						}
						for k := 0; k < size; k++ {
							zzsim.Send(leave[g], struct{}{})
						}
					}
					zzsim.Recv(leave[g])
					inside--
					mine.Release()
					zzsim.Send(finished, struct{}{})
				})
			}
		}
		if late {
			spawn(size)
		} else {
			spawn(groups * size)
		}
		for k := 0; k < groups*size; k++ {
			zzsim.Recv(finished)
		}
		for i := 0; i < size; i++ {
			sem.Acquire()
		}
	})
	if x.fail != nil && x.fail.Class == "deadlock" {
		x.fail.Detail = fmt.Sprintf("semaphore of %d: %d tasks wait although only %d slots are in use; %s", capacity, waiting, inside+holders, x.fail.Detail)
	} else if x.fail == nil {
		x.Probe("whole groups met inside the semaphore")
	}
}

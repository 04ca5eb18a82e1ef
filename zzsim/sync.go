//go:build go1.21

package zzsim

import "fmt"

// WaitQ is a queue of blocked tasks for the sync package of the simulation.
type WaitQ struct{ q []*Task }

// Wait blocks the current task in the queue.
func (w *WaitQ) Wait(what string) {
	r := R
	if r == nil {
		panic("zzsim: would block outside a run: " + what)
	}
	if r.killing {
		r.block(what)
	}
	w.q = append(w.q, r.cur)
	r.block(what + ", " + caller(3))
}

// WakeOne wakes the first blocked task, if any.
func (w *WaitQ) WakeOne() bool {
	for len(w.q) > 0 {
		t := w.q[0]
		w.q = w.q[1:]
		if R != nil && !R.killing && t.state == stBlocked && t.id < len(R.tasks) && R.tasks[t.id] == t {
			R.makeReady(t)
			return true
		}
	}
	return false
}

// WakeAll wakes all blocked tasks.
func (w *WaitQ) WakeAll() {
	for w.WakeOne() {
	}
}

// RunID identifies the current run, 0 outside.
func RunID() int64 {
	if R == nil {
		return 0
	}
	return R.id
}

// Coin is a seeded random number for buggify decisions of the shims.
func Coin(n int64) int64 {
	if R == nil {
		return 0
	}
	return R.randTask.N(n)
}

// Fatal is an unrecoverable error of the Go runtime (e.g. unlock of unlocked mutex).
func Fatal(s string) { panic(fmt.Errorf("fatal error: %s", s)) }

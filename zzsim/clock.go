//go:build go1.21

package zzsim

import (
	"time"
)

type timer struct {
	at   int64
	seq  int64
	fire func(r *Run)
	dead bool
}

func (r *Run) now() int64 { return r.clock + r.steps }

func (r *Run) addTimer(d time.Duration, f func(r *Run)) *timer {
	if d < 0 {
		d = 0
	}
	r.timerSeq++
	t := &timer{at: r.now() + int64(d), seq: r.timerSeq, fire: f}
	i := len(r.timers)
	r.timers = append(r.timers, t)
	for i > 0 && (r.timers[i-1].at > t.at || (r.timers[i-1].at == t.at && r.timers[i-1].seq > t.seq)) {
		r.timers[i] = r.timers[i-1]
		i--
	}
	r.timers[i] = t
	if i == 0 && r.cur != nil && r.cur.state == stRunning {
		r.sooner(t.at - r.now() - 1)
	}
	return t
}

// sooner brings the next decision of the current task forward.
func (r *Run) sooner(b int64) {
	if b < 0 {
		b = 0
	}
	r.settle(r.cur)
	if left > b {
		r.cur.given = b
		left = b
	}
}

// fireTimer advances the clock to the next timer and fires it.
func (r *Run) fireTimer() bool {
	for len(r.timers) > 0 {
		t := r.timers[0]
		r.timers = r.timers[1:]
		if t.dead {
			continue
		}
		if t.at > r.now() {
			r.clock += t.at - r.now()
		}
		t.dead = true
		t.fire(r)
		return true
	}
	return false
}

func (r *Run) dueTimers() {
	for len(r.timers) > 0 && r.timers[0].at <= r.now() {
		r.fireTimer()
	}
}

// Sleep blocks the task for d of simulated time.
func Sleep(d time.Duration) {
	r := R
	if r == nil {
		time.Sleep(d)
		return
	}
	if d <= 0 {
		Gosched()
		return
	}
	r.settle(r.cur)
	t := r.cur
	r.addTimer(d, func(r *Run) { r.makeReady(t) })
	r.block("sleep, " + caller(2))
}

var epoch = time.Date(2021, 1, 1, 0, 0, 0, 0, time.UTC)

// Now is the simulated time.
func Now() time.Time {
	if R == nil {
		return time.Now()
	}
	R.settle(R.cur)
	return epoch.Add(time.Duration(R.now()))
}

// Since is time.Since on the simulated clock.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until is time.Until on the simulated clock.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Timer is time.Timer on the simulated clock.
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	f  func()
	t  *timer
	rt *time.Timer
}

func (x *Timer) arm(d time.Duration) {
	R.settle(R.cur)
	x.t = R.addTimer(d, func(r *Run) {
		if x.f != nil {
			r.spawnFromTimer(x.f)
			return
		}
		s := stateOf(r, x.c)
		now := epoch.Add(time.Duration(r.now()))
		if w := popWaiter(&s.recvq); w != nil {
			deliver(r, w, now, true)
		} else if s.n() < s.cap {
			s.push(now)
		}
	})
}

func (r *Run) spawnFromTimer(f func()) {
	t := r.newTask("t" + time.Duration(r.timerSeq).String() + "." + time.Duration(len(r.tasks)).String())
	r.start(t, f)
}

// NewTimer is time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	if R == nil {
		t := time.NewTimer(d)
		return &Timer{C: t.C, rt: t}
	}
	x := &Timer{c: make(chan time.Time, 1)}
	x.C = x.c
	x.arm(d)
	return x
}

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	if R == nil {
		return &Timer{rt: time.AfterFunc(d, f)}
	}
	x := &Timer{f: f}
	x.arm(d)
	return x
}

// Stop stops the timer.
func (x *Timer) Stop() bool {
	if x.rt != nil {
		return x.rt.Stop()
	}
	was := x.t != nil && !x.t.dead
	if x.t != nil {
		x.t.dead = true
	}
	return was
}

// Reset re-arms the timer.
func (x *Timer) Reset(d time.Duration) bool {
	if x.rt != nil {
		return x.rt.Reset(d)
	}
	was := x.Stop()
	x.arm(d)
	return was
}

// After is time.After.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Ticker is time.Ticker on the simulated clock.
type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	d    time.Duration
	t    *timer
	dead bool
}

// NewTicker is time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	x := &Ticker{c: make(chan time.Time, 1), d: d}
	x.C = x.c
	if R != nil {
		R.settle(R.cur)
		x.arm()
	}
	return x
}

func (x *Ticker) arm() {
	x.t = R.addTimer(x.d, func(r *Run) {
		if x.dead {
			return
		}
		s := stateOf(r, x.c)
		now := epoch.Add(time.Duration(r.now()))
		if w := popWaiter(&s.recvq); w != nil {
			deliver(r, w, now, true)
		} else if s.n() < s.cap {
			s.push(now)
		}
		x.arm()
	})
}

// Stop stops the ticker.
func (x *Ticker) Stop() { x.dead = true; x.t.dead = true }

// Reset changes the period.
func (x *Ticker) Reset(d time.Duration) { x.t.dead = true; x.d = d; x.dead = false; x.arm() }

// Tick is time.Tick.
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

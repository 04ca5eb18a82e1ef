//go:build go1.21

package zzsim

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

type waiter struct {
	t    *Task
	val  any
	ok   bool
	sel  *selection
	idx  int
	gone bool
}

type selection struct {
	fired bool
	idx   int
	val   any
	ok    bool
}

type chanState struct {
	keep   any
	cap    int
	buf    []any
	head   int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	back   func(buf []any, closed bool)
	dirty  bool
}

func (s *chanState) n() int { return len(s.buf) - s.head }
func (s *chanState) pop() any {
	v := s.buf[s.head]
	s.buf[s.head] = nil
	s.head++
	if s.head == len(s.buf) {
		s.buf, s.head = s.buf[:0], 0
	}
	return v
}
func (s *chanState) push(v any) { s.buf = append(s.buf, v) }

func (s *chanState) writeBack() {
	if s.dirty {
		s.back(s.buf[s.head:], s.closed)
	}
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.gone || (w.sel != nil && w.sel.fired) {
			continue
		}
		return w
	}
	return nil
}

// stateOf returns the simulated state of a channel, created from its real state at first use.
func stateOf[T any](r *Run, c chan T) *chanState {
	p := *(*uintptr)(unsafe.Pointer(&c))
	s := r.chans[p]
	if s == nil {
		s = &chanState{keep: c, cap: cap(c)}
		for more := true; more; {
			select {
			case v, ok := <-c:
				if ok {
					s.push(v)
				} else {
					s.closed, more = true, false
				}
			default:
				more = false
			}
		}
		wasClosed := s.closed
		s.dirty = true
		s.back = func(buf []any, closed bool) {
			if wasClosed {
				return
			}
			for _, v := range buf {
				x, _ := v.(T)
				select {
				case c <- x:
				default:
				}
			}
			if closed {
				close(c)
			}
		}
		r.chans[p] = s
	}
	return s
}

func bidi[T any](c <-chan T) chan T  { return *(*chan T)(unsafe.Pointer(&c)) }
func bidiS[T any](c chan<- T) chan T { return *(*chan T)(unsafe.Pointer(&c)) }

func active() *Run {
	if R == nil {
		return nil
	}
	return R
}

// SendTo returns the function that sends on c.
func SendTo[T any](c chan<- T) func(T) {
	return func(v T) { Send(c, v) }
}

// Send is c <- v.
func Send[T any](c chan<- T, v T) {
	r := active()
	if r == nil {
		c <- v
		return
	}
	if c == nil {
		r.block("send on nil channel, " + caller(2))
	}
	Y()
	s := stateOf(r, bidiS(c))
	if s.closed {
		panic(fmt.Errorf("send on closed channel"))
	}
	if w := popWaiter(&s.recvq); w != nil {
		deliver(r, w, v, true)
		return
	}
	if s.n() < s.cap {
		s.push(v)
		return
	}
	w := &waiter{t: r.cur, val: v}
	s.sendq = append(s.sendq, w)
	r.block("send, " + caller(2))
	if !w.ok {
		panic(fmt.Errorf("send on closed channel"))
	}
}

func deliver(r *Run, w *waiter, v any, ok bool) {
	if w.sel != nil {
		w.sel.fired, w.sel.idx, w.sel.val, w.sel.ok = true, w.idx, v, ok
	} else {
		w.val, w.ok = v, ok
	}
	if !r.killing {
		r.makeReady(w.t)
	}
}

// Recv is <-c.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 is v, ok := <-c.
func Recv2[T any](c <-chan T) (T, bool) {
	r := active()
	if r == nil {
		v, ok := <-c
		return v, ok
	}
	if c == nil {
		r.block("receive on nil channel, " + caller(2))
	}
	Y()
	s := stateOf(r, bidi(c))
	if s.n() > 0 {
		v := s.pop()
		if w := popWaiter(&s.sendq); w != nil {
			s.push(sent(w))
			released(r, w)
		}
		x, _ := v.(T)
		return x, true
	}
	if w := popWaiter(&s.sendq); w != nil {
		v := sent(w)
		released(r, w)
		x, _ := v.(T)
		return x, true
	}
	if s.closed {
		var z T
		return z, false
	}
	w := &waiter{t: r.cur}
	s.recvq = append(s.recvq, w)
	r.block("receive, " + caller(2))
	x, _ := w.val.(T)
	return x, w.ok
}

func sent(w *waiter) any { return w.val }

// released tells a waiting sender that its value was taken
func released(r *Run, w *waiter) {
	if w.sel != nil {
		w.sel.fired, w.sel.idx, w.sel.ok = true, w.idx, true
	} else {
		w.ok = true
	}
	if !r.killing {
		r.makeReady(w.t)
	}
}

// Close is close(c).
func Close[T any](c chan<- T) {
	r := active()
	if r == nil {
		close(c)
		return
	}
	Y()
	s := stateOf(r, bidiS(c))
	if s.closed {
		panic(fmt.Errorf("close of closed channel"))
	}
	s.closed = true
	for {
		w := popWaiter(&s.recvq)
		if w == nil {
			break
		}
		deliver(r, w, nil, false)
	}
	for {
		w := popWaiter(&s.sendq)
		if w == nil {
			break
		}
		if w.sel != nil {
			w.sel.fired, w.sel.idx, w.sel.ok = true, w.idx, false
		} else {
			w.ok = false
		}
		if !r.killing {
			r.makeReady(w.t)
		}
	}
}

// Len is len(c).
func Len[T any](c <-chan T) int {
	r := active()
	if r == nil {
		return len(c)
	}
	if c == nil {
		return 0
	}
	return stateOf(r, bidi(c)).n()
}

// RangeChan prepares a range over c.
func RangeChan[T any](c <-chan T) (<-chan T, T) {
	var z T
	return c, z
}

// SelCase is a case of a select.
type SelCase struct {
	send  bool
	val   any
	state func(r *Run) *chanState
	real  reflect.SelectCase
}

// RecvCase is case <-c.
func RecvCase[T any](c <-chan T) SelCase {
	return SelCase{
		state: func(r *Run) *chanState {
			if c == nil {
				return nil
			}
			return stateOf(r, bidi(c))
		},
		real: reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c)},
	}
}

// SendCase is case c <- v.
func SendCase[T any](c chan<- T) func(v T) SelCase {
	return func(v T) SelCase {
		return SelCase{
			send: true, val: v,
			state: func(r *Run) *chanState {
				if c == nil {
					return nil
				}
				return stateOf(r, bidiS(c))
			},
			real: reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c), Send: reflect.ValueOf(v)},
		}
	}
}

// Val converts the value received by a select.
func Val[T any](_ <-chan T, v any) T {
	x, _ := v.(T)
	return x
}

// Select runs a select statement; -1 means default.
func Select(hasDefault bool, cases ...SelCase) (int, any, bool) {
	r := active()
	if r == nil {
		var rc []reflect.SelectCase
		for _, c := range cases {
			rc = append(rc, c.real)
		}
		if hasDefault {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		if i == len(cases) {
			return -1, nil, false
		}
		if cases[i].send {
			return i, nil, false
		}
		return i, v.Interface(), ok
	}
	Y()
	var can []int
	states := make([]*chanState, len(cases))
	for i, c := range cases {
		s := c.state(r)
		states[i] = s
		if s == nil {
			continue
		}
		if c.send {
			if s.closed || s.n() < s.cap || hasWaiter(s.recvq) {
				can = append(can, i)
			}
		} else if s.n() > 0 || s.closed || hasWaiter(s.sendq) {
			can = append(can, i)
		}
	}
	if len(can) > 0 {
		i := can[r.randTask.N(int64(len(can)))]
		s := states[i]
		if cases[i].send {
			if s.closed {
				panic(fmt.Errorf("send on closed channel"))
			}
			if w := popWaiter(&s.recvq); w != nil {
				deliver(r, w, cases[i].val, true)
			} else {
				s.push(cases[i].val)
			}
			return i, nil, false
		}
		if s.n() > 0 {
			v := s.pop()
			if w := popWaiter(&s.sendq); w != nil {
				s.push(w.val)
				released(r, w)
			}
			return i, v, true
		}
		if w := popWaiter(&s.sendq); w != nil {
			v := w.val
			released(r, w)
			return i, v, true
		}
		return i, nil, false
	}
	if hasDefault {
		return -1, nil, false
	}
	sel := &selection{}
	for i, c := range cases {
		s := states[i]
		if s == nil {
			continue
		}
		w := &waiter{t: r.cur, val: c.val, sel: sel, idx: i}
		if c.send {
			s.sendq = append(s.sendq, w)
		} else {
			s.recvq = append(s.recvq, w)
		}
	}
	r.block("select, " + caller(2))
	if cases[sel.idx].send && !sel.ok {
		panic(fmt.Errorf("send on closed channel"))
	}
	return sel.idx, sel.val, sel.ok
}

func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if !w.gone && (w.sel == nil || !w.sel.fired) {
			return true
		}
	}
	return false
}

// MapKeys returns the keys of m in a seeded order.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	names := make(map[K]string, len(m))
	for _, k := range keys {
		names[k] = fmt.Sprintf("%v", k)
	}
	sort.SliceStable(keys, func(i, j int) bool { return names[keys[i]] < names[keys[j]] })
	if R != nil {
		g := &R.randTask
		for i := len(keys) - 1; i > 0; i-- {
			j := g.N(int64(i + 1))
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	return keys
}

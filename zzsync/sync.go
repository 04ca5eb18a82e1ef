//go:build go1.21

// Package sync replaces the standard package in the instrumented code.
package sync

import (
	"fmt"
	"gkr-mimc/zzverif/zzsim"
)

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is sync.Mutex.
type Mutex struct {
	locked bool
	w      zzsim.WaitQ
}

// Lock locks m.
func (m *Mutex) Lock() {
	zzsim.Y()
	for m.locked {
		m.w.Wait("mutex")
	}
	m.locked = true
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	zzsim.Y()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	zzsim.Y()
	if !m.locked {
		zzsim.Fatal("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.w.WakeOne()
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	w, waitW int
	r        int
	q        zzsim.WaitQ
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	zzsim.Y()
	m.waitW++
	for m.w > 0 || m.r > 0 {
		m.q.Wait("rwmutex")
	}
	m.waitW--
	m.w = 1
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	zzsim.Y()
	if m.w > 0 || m.r > 0 {
		return false
	}
	m.w = 1
	return true
}

// Unlock unlocks for writing.
func (m *RWMutex) Unlock() {
	zzsim.Y()
	if m.w == 0 {
		zzsim.Fatal("sync: Unlock of unlocked RWMutex")
	}
	m.w = 0
	m.q.WakeAll()
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	zzsim.Y()
	for m.w > 0 || m.waitW > 0 {
		m.q.Wait("rwmutex")
		if m.w == 0 {
			break
		}
	}
	m.r++
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	zzsim.Y()
	if m.w > 0 || m.waitW > 0 {
		return false
	}
	m.r++
	return true
}

// RUnlock unlocks for reading.
func (m *RWMutex) RUnlock() {
	zzsim.Y()
	if m.r == 0 {
		zzsim.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	if m.r == 0 {
		m.q.WakeAll()
	}
}

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n int
	w zzsim.WaitQ
}

// Add adds delta.
func (g *WaitGroup) Add(delta int) {
	zzsim.Y()
	g.n += delta
	if g.n < 0 {
		panic(fmt.Errorf("sync: negative WaitGroup counter"))
	}
	if g.n == 0 {
		g.w.WakeAll()
	}
}

// Done is Add(-1).
func (g *WaitGroup) Done() { g.Add(-1) }

// Wait waits for the counter to be zero.
func (g *WaitGroup) Wait() {
	zzsim.Y()
	if g.n > 0 {
		g.w.Wait("waitgroup")
	}
}

// Go runs f in a new task.
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	zzsim.Go(func() {
		defer g.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	done bool
	m    Mutex
}

// Do runs f once.
func (o *Once) Do(f func()) {
	zzsim.Y()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

// Pool is sync.Pool; what it holds never outlives a run.
type Pool struct {
	New  func() any
	run  int64
	have []any
}

func (p *Pool) fresh() {
	if id := zzsim.Epoch(); id != p.run {
		p.run, p.have = id, nil
	}
}

// Get returns any pooled object, or a new one.
func (p *Pool) Get() any {
	zzsim.Y()
	p.fresh()
	if n := len(p.have); n > 0 && zzsim.Coin(8) != 7 {
		i := int(zzsim.Coin(int64(n)))
		v := p.have[i]
		p.have[i] = p.have[n-1]
		p.have = p.have[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put gives an object back.
func (p *Pool) Put(x any) {
	zzsim.Y()
	p.fresh()
	if x != nil {
		p.have = append(p.have, x)
	}
}

// Map is sync.Map.
type Map struct{ m map[any]any }

// Load returns the value of key.
func (m *Map) Load(key any) (any, bool) {
	zzsim.Y()
	v, ok := m.m[key]
	return v, ok
}

// Store sets the value of key.
func (m *Map) Store(key, value any) {
	zzsim.Y()
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[key] = value
}

// LoadOrStore is sync.Map.LoadOrStore.
func (m *Map) LoadOrStore(key, value any) (any, bool) {
	zzsim.Y()
	if v, ok := m.m[key]; ok {
		return v, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[key] = value
	return value, false
}

// LoadAndDelete is sync.Map.LoadAndDelete.
func (m *Map) LoadAndDelete(key any) (any, bool) {
	zzsim.Y()
	v, ok := m.m[key]
	delete(m.m, key)
	return v, ok
}

// Delete removes key.
func (m *Map) Delete(key any) {
	zzsim.Y()
	delete(m.m, key)
}

// Swap is sync.Map.Swap.
func (m *Map) Swap(key, value any) (any, bool) {
	zzsim.Y()
	v, ok := m.m[key]
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[key] = value
	return v, ok
}

// CompareAndSwap is sync.Map.CompareAndSwap.
func (m *Map) CompareAndSwap(key, old, new any) bool {
	zzsim.Y()
	if v, ok := m.m[key]; ok && v == old {
		m.m[key] = new
		return true
	}
	return false
}

// CompareAndDelete is sync.Map.CompareAndDelete.
func (m *Map) CompareAndDelete(key, old any) bool {
	zzsim.Y()
	if v, ok := m.m[key]; ok && v == old {
		delete(m.m, key)
		return true
	}
	return false
}

// Range is sync.Map.Range.
func (m *Map) Range(f func(key, value any) bool) {
	zzsim.Y()
	for _, k := range zzsim.MapKeys(m.m) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}

// Clear removes everything.
func (m *Map) Clear() { zzsim.Y(); m.m = nil }

// Cond is sync.Cond.
type Cond struct {
	L Locker
	w zzsim.WaitQ
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a signal.
func (c *Cond) Wait() {
	c.L.Unlock()
	c.w.Wait("cond")
	c.L.Lock()
}

// Signal wakes one.
func (c *Cond) Signal() { zzsim.Y(); c.w.WakeOne() }

// Broadcast wakes all.
func (c *Cond) Broadcast() { zzsim.Y(); c.w.WakeAll() }

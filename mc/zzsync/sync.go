//go:build go1.23

// Package zzsync takes the place of package sync in code run by package
// sched. Its operations order memory accesses like those of package sync and
// are points of the program.
package zzsync

import (
	"sync"
	"sync/atomic"

	"github.com/itstarsun/go-thrift/internal/zzverif/sched"
)

// Locker is that of package sync.
type Locker = sync.Locker

// Mutex is like sync.Mutex.
type Mutex struct{ mu sync.Mutex }

// Lock is like that of sync.Mutex.
func (m *Mutex) Lock() {
	sched.P(sched.Sync)
	for !m.mu.TryLock() {
		if !sched.Active() {
			m.mu.Lock()
			return
		}
		sched.Wait()
	}
}

// TryLock is like that of sync.Mutex.
func (m *Mutex) TryLock() bool {
	sched.P(sched.Sync)
	return m.mu.TryLock()
}

// Unlock is like that of sync.Mutex.
func (m *Mutex) Unlock() {
	m.mu.Unlock()
	sched.Release()
	sched.P(sched.Sync)
}

// RWMutex is like sync.RWMutex.
type RWMutex struct{ mu sync.RWMutex }

// Lock is like that of sync.RWMutex.
func (m *RWMutex) Lock() {
	sched.P(sched.Sync)
	for !m.mu.TryLock() {
		if !sched.Active() {
			m.mu.Lock()
			return
		}
		sched.Wait()
	}
}

// RLock is like that of sync.RWMutex.
func (m *RWMutex) RLock() {
	sched.P(sched.Sync)
	for !m.mu.TryRLock() {
		if !sched.Active() {
			m.mu.RLock()
			return
		}
		sched.Wait()
	}
}

// TryLock is like that of sync.RWMutex.
func (m *RWMutex) TryLock() bool {
	sched.P(sched.Sync)
	return m.mu.TryLock()
}

// TryRLock is like that of sync.RWMutex.
func (m *RWMutex) TryRLock() bool {
	sched.P(sched.Sync)
	return m.mu.TryRLock()
}

// Unlock is like that of sync.RWMutex.
func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	sched.Release()
	sched.P(sched.Sync)
}

// RUnlock is like that of sync.RWMutex.
func (m *RWMutex) RUnlock() {
	m.mu.RUnlock()
	sched.Release()
	sched.P(sched.Sync)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is like that of sync.RWMutex.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is like sync.Once.
type Once struct {
	done atomic.Uint32
	m    Mutex
}

// Do is like that of sync.Once.
func (o *Once) Do(f func()) {
	sched.P(sched.Sync)
	if o.done.Load() == 0 {
		o.slow(f)
	}
}

func (o *Once) slow(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done.Load() == 0 {
		defer o.done.Store(1)
		f()
	}
}

// OnceFunc is like sync.OnceFunc.
func OnceFunc(f func()) func() {
	g := OnceValue(func() struct{} { f(); return struct{}{} })
	return func() { g() }
}

// OnceValue is like sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var once Once
	var valid bool
	var p any
	var v T
	g := func() {
		defer func() {
			if p = recover(); !valid {
				panic(p)
			}
		}()
		v = f()
		valid = true
	}
	return func() T {
		once.Do(g)
		if !valid {
			panic(p)
		}
		return v
	}
}

// OnceValues is like sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	type pair struct {
		t T
		u U
	}
	g := OnceValue(func() pair { t, u := f(); return pair{t, u} })
	return func() (T, U) { p := g(); return p.t, p.u }
}

// Map is like sync.Map.
type Map struct{ m sync.Map }

// Load is like that of sync.Map.
func (m *Map) Load(k any) (any, bool) { sched.P(sched.Sync); return m.m.Load(k) }

// Store is like that of sync.Map.
func (m *Map) Store(k, v any) { sched.P(sched.Sync); m.m.Store(k, v) }

// Clear is like that of sync.Map.
func (m *Map) Clear() { sched.P(sched.Sync); m.m.Clear() }

// LoadOrStore is like that of sync.Map.
func (m *Map) LoadOrStore(k, v any) (any, bool) { sched.P(sched.Sync); return m.m.LoadOrStore(k, v) }

// LoadAndDelete is like that of sync.Map.
func (m *Map) LoadAndDelete(k any) (any, bool) { sched.P(sched.Sync); return m.m.LoadAndDelete(k) }

// Delete is like that of sync.Map.
func (m *Map) Delete(k any) { sched.P(sched.Sync); m.m.Delete(k) }

// Swap is like that of sync.Map.
func (m *Map) Swap(k, v any) (any, bool) { sched.P(sched.Sync); return m.m.Swap(k, v) }

// CompareAndSwap is like that of sync.Map.
func (m *Map) CompareAndSwap(k, o, n any) bool {
	sched.P(sched.Sync)
	return m.m.CompareAndSwap(k, o, n)
}

// CompareAndDelete is like that of sync.Map.
func (m *Map) CompareAndDelete(k, o any) bool {
	sched.P(sched.Sync)
	return m.m.CompareAndDelete(k, o)
}

// Range is like that of sync.Map.
func (m *Map) Range(f func(k, v any) bool) { sched.P(sched.Sync); m.m.Range(f) }

// Pool is like sync.Pool; it gives out what was put in last, but nothing
// from before the run.
type Pool struct {
	New func() any

	epoch int
	mu    sync.Mutex
	items []any
}

func (p *Pool) fresh() {
	if e := sched.Epoch(); e != p.epoch {
		p.epoch = e
		p.items = nil
	}
}

// Get is like that of sync.Pool.
func (p *Pool) Get() any {
	sched.P(sched.Sync)
	p.mu.Lock()
	p.fresh()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put is like that of sync.Pool.
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.mu.Lock()
	p.fresh()
	p.items = append(p.items, x)
	p.mu.Unlock()
	sched.P(sched.Sync)
}

// WaitGroup is like sync.WaitGroup.
type WaitGroup struct {
	n  atomic.Int64
	wg sync.WaitGroup
}

// Add is like that of sync.WaitGroup.
func (w *WaitGroup) Add(n int) {
	sched.P(sched.Sync)
	w.wg.Add(n)
	w.n.Add(int64(n))
	sched.Release()
}

// Done is like that of sync.WaitGroup.
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait is like that of sync.WaitGroup.
func (w *WaitGroup) Wait() {
	sched.P(sched.Sync)
	for sched.Active() && w.n.Load() > 0 {
		sched.Wait()
	}
	w.wg.Wait()
}

// Cond is like sync.Cond.
type Cond struct {
	L Locker

	seq atomic.Int64
}

// NewCond is like sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait is like that of sync.Cond.
func (c *Cond) Wait() {
	s := c.seq.Load()
	c.L.Unlock()
	for c.seq.Load() == s {
		sched.Wait()
	}
	c.L.Lock()
}

// Signal is like that of sync.Cond, but wakes all.
func (c *Cond) Signal() { c.Broadcast() }

// Broadcast is like that of sync.Cond.
func (c *Cond) Broadcast() {
	c.seq.Add(1)
	sched.Release()
	sched.P(sched.Sync)
}

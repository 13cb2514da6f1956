// Package simsync stands in for package sync in library code under
// simulation: waiting happens inside the simulator.  The real primitives are
// underneath, so the race detector sees exactly their happens-before edges.
package simsync

import (
	"sync"
	"sync/atomic"
	"unsafe"

	"verifsim/simrt"
)

type Locker = sync.Locker

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	simrt.Seam(1)
	for !m.mu.TryLock() {
		if !simrt.Active() {
			m.mu.Lock()
			return
		}
		simrt.Block(unsafe.Pointer(m))
	}
}
func (m *Mutex) TryLock() bool { return m.mu.TryLock() }
func (m *Mutex) Unlock()       { m.mu.Unlock(); simrt.Wake(unsafe.Pointer(m)); simrt.Seam(1) }

// RWMutex, like the real one, lets no new reader in while a writer waits.
type RWMutex struct {
	mu sync.RWMutex
	w  atomic.Int32
}

func (m *RWMutex) Lock() {
	simrt.Seam(1)
	if m.mu.TryLock() {
		return
	}
	m.w.Add(1)
	for !m.mu.TryLock() {
		if !simrt.Active() {
			m.mu.Lock()
			break
		}
		simrt.Block(unsafe.Pointer(m))
	}
	m.w.Add(-1)
}
func (m *RWMutex) TryLock() bool  { return m.mu.TryLock() }
func (m *RWMutex) TryRLock() bool { return m.w.Load() == 0 && m.mu.TryRLock() }
func (m *RWMutex) Unlock()        { m.mu.Unlock(); simrt.Wake(unsafe.Pointer(m)); simrt.Seam(1) }
func (m *RWMutex) RLock() {
	simrt.Seam(1)
	for !m.TryRLock() {
		if !simrt.Active() {
			m.mu.RLock()
			return
		}
		simrt.Block(unsafe.Pointer(m))
	}
}
func (m *RWMutex) RUnlock()             { m.mu.RUnlock(); simrt.Wake(unsafe.Pointer(m)); simrt.Seam(1) }
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	done atomic.Uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done.Load() == 0 {
		o.slow(f)
	}
}
func (o *Once) slow(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done.Load() == 0 {
		defer o.done.Store(1)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	var valid bool
	var p any
	return func() {
		o.Do(func() {
			defer func() {
				if !valid {
					p = recover()
					panic(p)
				}
			}()
			f()
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var v T
	g := OnceFunc(func() { v = f() })
	return func() T { g(); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var v1 T1
	var v2 T2
	g := OnceFunc(func() { v1, v2 = f() })
	return func() (T1, T2) { g(); return v1, v2 }
}

type WaitGroup struct{ n atomic.Int64 }

func (w *WaitGroup) Add(d int) {
	if n := w.n.Add(int64(d)); n < 0 {
		panic("sync: negative WaitGroup counter")
	} else if n == 0 {
		simrt.Wake(unsafe.Pointer(w))
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	simrt.Seam(1)
	for w.n.Load() > 0 {
		simrt.Block(unsafe.Pointer(w))
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

type Cond struct {
	L   Locker
	seq atomic.Int64 // waiters so far
	rel atomic.Int64 // waiters released
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	me := c.seq.Add(1)
	c.L.Unlock()
	for c.rel.Load() < me {
		simrt.Block(unsafe.Pointer(c))
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	if c.rel.Load() < c.seq.Load() {
		c.rel.Add(1)
	}
	simrt.Wake(unsafe.Pointer(c))
}
func (c *Cond) Broadcast() { c.rel.Store(c.seq.Load()); simrt.Wake(unsafe.Pointer(c)) }

// Map is sync.Map with the iteration order under the simulator's control.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { simrt.Seam(1); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { simrt.Seam(1); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { simrt.Seam(1); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { simrt.Seam(1); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { simrt.Seam(1); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { simrt.Seam(1); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { simrt.Seam(1); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { simrt.Seam(1); return m.m.CompareAndDelete(k, o) }
func (m *Map) Clear()                           { simrt.Seam(1); m.m.Clear() }
func (m *Map) Range(f func(k, v any) bool) {
	all := map[any]any{}
	m.m.Range(func(k, v any) bool { all[k] = v; return true })
	for _, e := range simrt.Entries(all) {
		if v, ok := m.m.Load(e.K); ok && !f(e.K, v) {
			return
		}
	}
}

// Pool hands objects back most-recent-first, the order that shows misuse best.
type Pool struct {
	New   func() any
	items []any
	gets  uint64
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	put(p, x)
	simrt.Seam(1)
}

func (p *Pool) Get() any {
	simrt.Seam(1)
	if x := get(p); x != nil {
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func put(p *Pool, x any) {
	release(x)
	p.items = append(p.items, x)
}

//go:norace
func get(p *Pool) any {
	p.gets++
	n := len(p.items)
	if n == 0 || p.gets%16 == 15 { // now and then as if collected
		return nil
	}
	x := p.items[n-1]
	p.items = p.items[:n-1]
	acquire(x)
	return x
}

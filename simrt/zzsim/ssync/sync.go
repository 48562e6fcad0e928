// Package ssync replaces package sync in the instrumented build.
package ssync

import (
	"sync"

	sim "github.com/adamcolton/parlex/zzsim"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is sync.Mutex.
type Mutex struct {
	locked bool
	sv     sim.SyncVar
	wl     sim.WaitList
}

func (m *Mutex) Lock() {
	sim.Sync()
	for m.locked {
		if sim.Aborting() {
			return
		}
		m.wl.Block("mutex")
	}
	m.locked = true
	m.sv.Acquire()
}

func (m *Mutex) TryLock() bool {
	sim.Sync()
	if m.locked {
		return false
	}
	m.locked = true
	m.sv.Acquire()
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		if sim.Aborting() {
			return
		}
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.sv.Release()
	m.locked = false
	m.wl.WakeAll()
	sim.Sync()
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	w       bool
	r       int
	wwait   int
	sv, rsv sim.SyncVar
	wl      sim.WaitList
}

func (m *RWMutex) Lock() {
	sim.Sync()
	m.wwait++
	for m.w || m.r > 0 {
		if sim.Aborting() {
			return
		}
		m.wl.Block("rwmutex (write)")
	}
	m.wwait--
	m.w = true
	m.sv.Acquire()
	m.rsv.Acquire()
}
func (m *RWMutex) TryLock() bool {
	sim.Sync()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	m.sv.Acquire()
	m.rsv.Acquire()
	return true
}
func (m *RWMutex) Unlock() {
	if !m.w {
		if sim.Aborting() {
			return
		}
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.sv.Release()
	m.w = false
	m.wl.WakeAll()
	sim.Sync()
}

// RLock: a waiting writer blocks new readers, as in package sync.
func (m *RWMutex) RLock() {
	sim.Sync()
	for m.w || m.wwait > 0 {
		if sim.Aborting() {
			return
		}
		m.wl.Block("rwmutex (read)")
	}
	m.r++
	m.sv.Acquire()
}
func (m *RWMutex) TryRLock() bool {
	sim.Sync()
	if m.w || m.wwait > 0 {
		return false
	}
	m.r++
	m.sv.Acquire()
	return true
}
func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		if sim.Aborting() {
			return
		}
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.rsv.Release()
	m.r--
	m.wl.WakeAll()
	sim.Sync()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is sync.Once.
type Once struct {
	done bool
	m    Mutex
	sv   sim.SyncVar
}

func (o *Once) Do(f func()) {
	sim.Sync()
	if o.done {
		o.sv.Acquire()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.done = true
			o.sv.Release()
		}()
		f()
	}
}

// OnceFunc, OnceValue and OnceValues as in package sync.
func OnceFunc(f func()) func() {
	var o Once
	var ok bool
	var p interface{}
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}
func OnceValue[T any](f func() T) func() T {
	var v T
	g := OnceFunc(func() { v = f() })
	return func() T { g(); return v }
}
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var a A
	var b B
	g := OnceFunc(func() { a, b = f() })
	return func() (A, B) { g(); return a, b }
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n  int
	sv sim.SyncVar
	wl sim.WaitList
}

func (w *WaitGroup) Add(d int) {
	sim.Sync()
	if d < 0 {
		w.sv.Release()
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.wl.WakeAll()
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	sim.Sync()
	for w.n > 0 {
		if sim.Aborting() {
			return
		}
		w.wl.Block("waitgroup")
	}
	w.sv.Acquire()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sim.Go(func() {
		defer w.Done()
		f()
	}, 0)
}

// Pool is sync.Pool: whether Get finds a pooled value, and which, is decided
// by the seed.
type Pool struct {
	noCopy [0]func()
	New    func() any
	items  []poolItem
}
type poolItem struct {
	v  any
	sv *sim.SyncVar
}

func (p *Pool) Put(x any) {
	sim.Sync()
	if x == nil {
		return
	}
	if r := sim.RuntimeRand(); r != nil && r.N(8) == 0 {
		return
	}
	it := poolItem{x, &sim.SyncVar{}}
	it.sv.Release()
	p.items = append(p.items, it)
}
func (p *Pool) Get() any {
	sim.Sync()
	if n := len(p.items); n > 0 {
		k := n - 1
		miss := false
		if r := sim.RuntimeRand(); r != nil {
			miss = r.N(5) == 0
			k = r.N(n)
		}
		if !miss {
			it := p.items[k]
			p.items = append(append([]poolItem(nil), p.items[:k]...), p.items[k+1:]...)
			it.sv.Acquire()
			sim.CountPool(true)
			return it.v
		}
	}
	sim.CountPool(false)
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Map is sync.Map.
type Map struct {
	m  map[any]any
	sv sim.SyncVar
}

func (m *Map) in()  { sim.Sync(); m.sv.Acquire() }
func (m *Map) out() { m.sv.Release() }
func (m *Map) Load(k any) (any, bool) {
	m.in()
	defer m.out()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v any) { m.Swap(k, v) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.in()
	defer m.out()
	o, ok := m.m[k]
	if m.m == nil {
		m.m = map[any]any{}
	}
	sim.SeePtr(k)
	m.m[k] = v
	return o, ok
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.in()
	defer m.out()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	sim.SeePtr(k)
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.in()
	defer m.out()
	o, ok := m.m[k]
	delete(m.m, k)
	return o, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.in()
	defer m.out()
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.in()
	defer m.out()
	if v, ok := m.m[k]; ok && v == o {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Clear() {
	m.in()
	defer m.out()
	m.m = nil
}
func (m *Map) Range(f func(k, v any) bool) {
	m.in()
	ks := make([]any, 0, len(m.m))
	for k := range m.m {
		ks = append(ks, k)
	}
	sim.OrderKeys(ks)
	m.out()
	for _, k := range ks {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}

// Cond is sync.Cond.
type Cond struct {
	L  Locker
	sv sim.SyncVar
	wl sim.WaitList
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	woken := c.wl.Enroll() // before unlocking: a signal must not be lost
	c.L.Unlock()
	for !woken() {
		c.wl.Park("cond")
		if sim.Aborting() {
			return
		}
	}
	c.sv.Acquire()
	c.L.Lock()
}
func (c *Cond) Signal()    { c.sv.Release(); c.wl.WakeOne(); sim.Sync() }
func (c *Cond) Broadcast() { c.sv.Release(); c.wl.WakeAll(); sim.Sync() }

// Package simsync replaces package sync in the code under test. Blocking is decided by the
// simulator; the real primitive is taken too, uncontended, so that the race detector
// sees exactly the program's own synchronisation.
package simsync

import (
	"sync"
	"unsafe"

	"vsim/simrt"
)

type Locker = sync.Locker

type noCopy struct{}

func fatal(msg string) {
	if simrt.Cur() == nil {
		panic("fatal error: " + msg)
	}
	simrt.FailedRun("crash", "fatal error: "+msg)
}

// Mutex replaces sync.Mutex.
type Mutex struct {
	locked bool
	real   sync.Mutex
}

func (m *Mutex) Lock() {
	simrt.Point("Lock")
	if simrt.Aborting() {
		return
	}
	simrt.Block("Mutex.Lock", func() bool { return !m.locked })
	m.locked = true
	m.real.Lock()
}

func (m *Mutex) TryLock() bool {
	simrt.Point("TryLock")
	if simrt.Aborting() {
		return true
	}
	if m.locked {
		return false
	}
	m.locked = true
	m.real.Lock()
	return true
}

func (m *Mutex) Unlock() {
	if simrt.Aborting() {
		return
	}
	if !m.locked {
		fatal("sync: unlock of unlocked mutex")
	}
	m.real.Unlock()
	m.locked = false
	simrt.Point("Unlock")
}

// RWMutex replaces sync.RWMutex, with its writer preference: a waiting writer keeps new
// readers out, and a leaving writer lets the readers that wait in first.
type RWMutex struct {
	w       bool // a writer holds or waits for the lock
	writing bool
	readers int
	waitR   int // readers kept out by the present writer
	gen     int // completed write locks
	real    sync.RWMutex
}

func (m *RWMutex) RLock() {
	simrt.Point("RLock")
	if simrt.Aborting() {
		return
	}
	if m.w {
		g := m.gen
		m.waitR++
		simrt.Block("RWMutex.RLock", func() bool { return m.gen != g })
		// counted in readers by the writer that left
	} else {
		m.readers++
	}
	if simrt.Aborting() {
		return
	}
	m.real.RLock()
}

func (m *RWMutex) TryRLock() bool {
	simrt.Point("TryRLock")
	if simrt.Aborting() {
		return true
	}
	if m.w {
		return false
	}
	m.readers++
	m.real.RLock()
	return true
}

func (m *RWMutex) RUnlock() {
	if simrt.Aborting() {
		return
	}
	if m.readers <= 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.real.RUnlock()
	m.readers--
	simrt.Point("RUnlock")
}

func (m *RWMutex) Lock() {
	simrt.Point("Lock")
	if simrt.Aborting() {
		return
	}
	simrt.Block("RWMutex.Lock", func() bool { return !m.w })
	m.w = true
	simrt.Block("RWMutex.Lock (readers inside)", func() bool { return m.readers == 0 })
	m.writing = true
	m.real.Lock()
}

func (m *RWMutex) TryLock() bool {
	simrt.Point("TryLock")
	if simrt.Aborting() {
		return true
	}
	if m.w || m.readers > 0 {
		return false
	}
	m.w, m.writing = true, true
	m.real.Lock()
	return true
}

func (m *RWMutex) Unlock() {
	if simrt.Aborting() {
		return
	}
	if !m.writing {
		fatal("sync: Unlock of unlocked RWMutex")
	}
	m.real.Unlock()
	m.w, m.writing = false, false
	m.readers += m.waitR
	m.waitR = 0
	m.gen++
	simrt.Point("Unlock")
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	n    int
	real sync.WaitGroup
}

func (g *WaitGroup) Add(d int) {
	if simrt.Aborting() {
		return
	}
	simrt.Point("WaitGroup.Add")
	g.real.Add(d)
	g.n += d
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	simrt.Point("WaitGroup.Wait")
	if simrt.Aborting() {
		return
	}
	simrt.Block("WaitGroup.Wait", func() bool { return g.n == 0 })
	g.real.Wait()
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	simrt.Go(func() {
		defer g.Done()
		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	done bool
	busy bool
	hb   uint64
	m    Mutex
}

func (o *Once) Do(f func()) {
	simrt.Point("Once.Do")
	if simrt.Aborting() {
		return
	}
	if o.done {
		simrt.RaceAcquire(unsafe.Pointer(&o.hb))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done {
		return
	}
	defer func() {
		simrt.RaceReleaseMerge(unsafe.Pointer(&o.hb))
		o.done = true
	}()
	f()
}

// OnceFunc and friends replace those of sync.
func OnceFunc(f func()) func() {
	var o Once
	var p any
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var v T
	g := OnceFunc(func() { v = f() })
	return func() T { g(); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var a A
	var b B
	g := OnceFunc(func() { a, b = f() })
	return func() (A, B) { g(); return a, b }
}

// Cond replaces sync.Cond.
type Cond struct {
	L  Locker
	q  []*condWaiter
	hb uint64
}

type condWaiter struct{ fired bool }

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	simrt.Point("Cond.Wait")
	if simrt.Aborting() {
		return
	}
	w := &condWaiter{}
	c.q = append(c.q, w)
	c.L.Unlock()
	simrt.Block("Cond.Wait", func() bool { return w.fired })
	simrt.RaceAcquire(unsafe.Pointer(&c.hb))
	c.L.Lock()
}

func (c *Cond) Signal() {
	simrt.Point("Cond.Signal")
	if len(c.q) > 0 {
		simrt.RaceReleaseMerge(unsafe.Pointer(&c.hb))
		c.q[0].fired = true
		c.q = c.q[1:]
	}
}

func (c *Cond) Broadcast() {
	simrt.Point("Cond.Broadcast")
	simrt.RaceReleaseMerge(unsafe.Pointer(&c.hb))
	for _, w := range c.q {
		w.fired = true
	}
	c.q = nil
}

// Pool replaces sync.Pool: Get returns any pooled item, or pretends to have none.
type Pool struct {
	New   func() any
	items []pooled
	store simrt.Store
}

const mostPooled = 8

type pooled struct {
	v  any
	hb *uint64
}

func (p *Pool) Get() any {
	simrt.Point("Pool.Get")
	if n := len(p.items); n > 0 {
		if i := simrt.Env(n + 1); i < n {
			x := p.items[i]
			left := make([]pooled, 0, n) // copying in bulk would be reported to the race detector
			for j := range p.items {
				if j != i {
					left = append(left, p.items[j])
				}
			}
			p.items = left
			simrt.RaceAcquire(unsafe.Pointer(x.hb))
			return x.v
		}
		simrt.CountPoolDrop()
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	hb := new(uint64)
	simrt.RaceReleaseMerge(unsafe.Pointer(hb))
	items := make([]pooled, 0, mostPooled)
	for i := range p.items {
		if i > 0 || len(p.items) < mostPooled {
			items = append(items, p.items[i])
		}
	}
	p.items = append(items, pooled{x, hb})
	if p.store.Clear == nil {
		p.store.Clear = func() { p.items = nil }
	}
	p.store.Used()
	simrt.Point("Pool.Put")
}

// Map replaces sync.Map. Writes are ordered before later reads, reads order nothing.
//
// It is a list, not a built-in map: the runtime itself reports its map accesses to the race
// detector, and here they would look like accesses of the program.
type Map struct {
	list []mapEntry
	hb   uint64
}

type mapEntry struct{ key, value any }

func (m *Map) find(key any) int {
	for i := range m.list {
		if m.list[i].key == key {
			return i
		}
	}
	return -1
}

func (m *Map) get(key any) (any, bool) {
	if i := m.find(key); i >= 0 {
		return m.list[i].value, true
	}
	return nil, false
}

func (m *Map) read() { simrt.RaceAcquire(unsafe.Pointer(&m.hb)) }
func (m *Map) write() {
	simrt.RaceAcquire(unsafe.Pointer(&m.hb))
	simrt.RaceReleaseMerge(unsafe.Pointer(&m.hb))
}

func (m *Map) Load(key any) (value any, ok bool) {
	simrt.Point("Map.Load")
	m.read()
	value, ok = m.get(key)
	return
}

func (m *Map) set(key, value any) {
	if i := m.find(key); i >= 0 {
		m.list[i].value = value
		return
	}
	m.list = append(m.list, mapEntry{key, value})
}

func (m *Map) del(key any) {
	i := m.find(key)
	if i < 0 {
		return
	}
	for ; i < len(m.list)-1; i++ {
		m.list[i] = m.list[i+1]
	}
	m.list[i] = mapEntry{}
	m.list = m.list[:i]
}

func (m *Map) Store(key, value any) { m.Swap(key, value) }

func (m *Map) Swap(key, value any) (previous any, loaded bool) {
	simrt.Point("Map.Swap")
	m.write()
	previous, loaded = m.get(key)
	m.set(key, value)
	return
}

func (m *Map) LoadOrStore(key, value any) (actual any, loaded bool) {
	simrt.Point("Map.LoadOrStore")
	if v, ok := m.get(key); ok {
		m.read()
		return v, true
	}
	m.write()
	m.set(key, value)
	return value, false
}

func (m *Map) LoadAndDelete(key any) (value any, loaded bool) {
	simrt.Point("Map.LoadAndDelete")
	m.write()
	value, loaded = m.get(key)
	if loaded {
		m.del(key)
	}
	return
}

func (m *Map) Delete(key any) { m.LoadAndDelete(key) }

func (m *Map) CompareAndSwap(key, old, new any) bool {
	simrt.Point("Map.CompareAndSwap")
	m.write()
	if v, ok := m.get(key); !ok || v != old {
		return false
	}
	m.set(key, new)
	return true
}

func (m *Map) CompareAndDelete(key, old any) bool {
	simrt.Point("Map.CompareAndDelete")
	m.write()
	if v, ok := m.get(key); !ok || v != old {
		return false
	}
	m.del(key)
	return true
}

func (m *Map) Clear() {
	simrt.Point("Map.Clear")
	m.write()
	m.list = nil
}

func (m *Map) Range(f func(key, value any) bool) {
	simrt.Point("Map.Range")
	keys := make([]any, len(m.list))
	for i := range m.list {
		keys[i] = m.list[i].key
	}
	for _, i := range simrt.MapOrder(len(keys)) {
		v, ok := m.Load(keys[i])
		if ok && !f(keys[i], v) {
			return
		}
	}
}

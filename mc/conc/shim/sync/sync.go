//go:build go1.23

// Package sync stands in for the standard package in rewritten code.
package sync

import (
	stdsync "sync"

	"github.com/superisaac/jlib/zzverif/vrt"
)

type Locker = stdsync.Locker

// Pool gives back what was put last. It is empty when an execution begins.
type Pool struct {
	New func() any
	s   *vrt.Sched
	o   *vrt.Obj
	l   []any
}

func (p *Pool) step(what string) {
	if p.s != vrt.S {
		p.s, p.o, p.l = vrt.S, &vrt.Obj{}, nil
	}
	vrt.Step(p.o, what)
}

func (p *Pool) Get() any {
	p.step("Pool.Get")
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		return x
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.step("Pool.Put")
	p.l = append(p.l, x)
}

type Mutex struct {
	o      vrt.Obj
	s      *vrt.Sched
	locked bool
}

// renew frees a lock that an earlier execution, cut short, left locked.
func (m *Mutex) renew() {
	if vrt.Renew(&m.s) {
		m.locked = false
	}
}

func (m *Mutex) Lock() {
	if !vrt.Pass() {
		m.renew()
		vrt.Await(&m.o, "Mutex.Lock", func() bool { return !m.locked })
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	if !vrt.Pass() {
		m.renew()
		vrt.Step(&m.o, "Mutex.TryLock")
	}
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if !vrt.Pass() {
		m.renew()
		if !m.locked {
			panic("fatal error: sync: unlock of unlocked mutex")
		}
		vrt.Touch(&m.o)
	}
	m.locked = false
}

type RWMutex struct {
	o       vrt.Obj
	s       *vrt.Sched
	writer  bool
	readers int
}

func (m *RWMutex) renew() {
	if vrt.Renew(&m.s) {
		m.writer, m.readers = false, 0
	}
}

func (m *RWMutex) Lock() {
	if !vrt.Pass() {
		m.renew()
		vrt.AwaitAs(&m.o, "RWMutex.Lock", vrt.AcqW|vrt.AcqR, func() bool { return !m.writer && m.readers == 0 })
	}
	m.writer = true
}

func (m *RWMutex) TryLock() bool {
	if !vrt.Pass() {
		m.renew()
		vrt.Step(&m.o, "RWMutex.TryLock")
	}
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	if !vrt.Pass() {
		m.renew()
		if !m.writer {
			panic("fatal error: sync: Unlock of unlocked RWMutex")
		}
		vrt.TouchAs(&m.o, vrt.RelW)
	}
	m.writer = false
}

func (m *RWMutex) RLock() {
	if !vrt.Pass() {
		m.renew()
		vrt.AwaitAs(&m.o, "RWMutex.RLock", vrt.AcqW, func() bool { return !m.writer })
	}
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	if !vrt.Pass() {
		m.renew()
		vrt.Step(&m.o, "RWMutex.TryRLock")
	}
	if m.writer {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	if !vrt.Pass() {
		m.renew()
		if m.readers <= 0 {
			panic("fatal error: sync: RUnlock of unlocked RWMutex")
		}
		vrt.TouchAs(&m.o, vrt.RelR)
	}
	m.readers--
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

type WaitGroup struct {
	o vrt.Obj
	n int
}

func (w *WaitGroup) Add(d int) {
	if !vrt.Pass() {
		vrt.Step(&w.o, "WaitGroup.Add")
		if w.n+d < 0 {
			panic("sync: negative WaitGroup counter")
		}
	}
	w.n += d
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if !vrt.Pass() {
		vrt.Await(&w.o, "WaitGroup.Wait", func() bool { return w.n == 0 })
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vrt.Go(func() {
		defer w.Done()
		f()
	})
}

type Cond struct {
	L    Locker
	o    vrt.Obj
	next int
	wait []int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if vrt.Pass() {
		return
	}
	c.next++
	id := c.next
	c.wait = append(c.wait, id)
	vrt.Touch(&c.o)
	c.L.Unlock()
	vrt.Await(&c.o, "Cond.Wait", func() bool {
		for _, x := range c.wait {
			if x == id {
				return false
			}
		}
		return true
	})
	c.L.Lock()
}

func (c *Cond) Signal() {
	if !vrt.Pass() {
		vrt.Step(&c.o, "Cond.Signal")
	}
	if len(c.wait) > 0 {
		c.wait = append([]int(nil), c.wait[1:]...)
	}
}

func (c *Cond) Broadcast() {
	if !vrt.Pass() {
		vrt.Step(&c.o, "Cond.Broadcast")
	}
	c.wait = nil
}

// Map keeps insertion order, so that Range is deterministic.
type Map struct {
	o    vrt.Obj
	keys []any
	m    map[any]any
}

func (m *Map) step(w string) {
	if !vrt.Pass() {
		vrt.Step(&m.o, w)
	}
}

func (m *Map) Load(k any) (any, bool) {
	m.step("Map.Load")
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) put(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}

func (m *Map) Store(k, v any) { m.step("Map.Store"); m.put(k, v) }
func (m *Map) Delete(k any)   { m.step("Map.Delete"); m.del(k) }
func (m *Map) Clear()         { m.step("Map.Clear"); m.m, m.keys = nil, nil }

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.step("Map.LoadOrStore")
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.put(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.step("Map.LoadAndDelete")
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

func (m *Map) Swap(k, v any) (any, bool) {
	m.step("Map.Swap")
	o, ok := m.m[k]
	m.put(k, v)
	return o, ok
}

func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.step("Map.CompareAndSwap")
	if o, ok := m.m[k]; ok && o == old {
		m.m[k] = new
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old any) bool {
	m.step("Map.CompareAndDelete")
	if o, ok := m.m[k]; ok && o == old {
		m.del(k)
		return true
	}
	return false
}

func (m *Map) Range(f func(k, v any) bool) {
	m.step("Map.Range")
	for _, k := range append([]any(nil), m.keys...) {
		m.step("Map.Range")
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}

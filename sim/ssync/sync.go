//go:build go1.27

// Package ssync stands in for package sync in the code under test: the same
// semantics, with every wait visible to the simulator's scheduler.
package ssync

import (
	"sync"

	"verif.local/sim/rt"
)

type Locker = sync.Locker

func fatal(msg string) {
	if rt.Down() {
		return
	}
	panic("fatal error: sync: " + msg)
}

type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	rt.Point()
	if m.locked {
		if !rt.Block("mutex", func() bool { return !m.locked }, 0) {
			return
		}
	}
	m.locked = true
}
func (m *Mutex) TryLock() bool {
	rt.Point()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}
func (m *Mutex) Unlock() {
	if !m.locked {
		fatal("unlock of unlocked mutex")
	}
	m.locked = false
	rt.Point()
}

type RWMutex struct {
	w       bool
	r       int
	waiting int
}

func (m *RWMutex) Lock() {
	rt.Point()
	m.waiting++
	rt.Block("rwmutex", func() bool { return !m.w && m.r == 0 }, 0)
	m.waiting--
	m.w = true
}
func (m *RWMutex) TryLock() bool {
	rt.Point()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) Unlock() {
	if !m.w {
		fatal("Unlock of unlocked RWMutex")
	}
	m.w = false
	rt.Point()
}
func (m *RWMutex) RLock() {
	rt.Point()
	rt.Block("rwmutex-r", func() bool { return !m.w && m.waiting == 0 }, 0)
	m.r++
}
func (m *RWMutex) TryRLock() bool {
	rt.Point()
	if m.w || m.waiting > 0 {
		return false
	}
	m.r++
	return true
}
func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		fatal("RUnlock of unlocked RWMutex")
	}
	m.r--
	rt.Point()
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct{ n int }

func (g *WaitGroup) Add(d int) {
	g.n += d
	if g.n < 0 {
		if !rt.Down() {
			panic("sync: negative WaitGroup counter")
		}
		g.n = 0
	}
	rt.Point()
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	rt.Point()
	rt.Block("waitgroup", func() bool { return g.n == 0 }, 0)
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	rt.Go(func() {
		defer g.Done()
		f()
	})
}

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	rt.Point()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

type Cond struct {
	L    Locker
	wait []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	f := new(bool)
	c.wait = append(c.wait, f)
	c.L.Unlock()
	rt.Block("cond", func() bool { return *f }, 0)
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.wait) > 0 {
		*c.wait[0] = true
		c.wait = c.wait[1:]
	}
	rt.Point()
}
func (c *Cond) Broadcast() {
	for _, f := range c.wait {
		*f = true
	}
	c.wait = nil
	rt.Point()
}

type Pool struct {
	New  func() any
	free []any
}

func (p *Pool) Get() any {
	rt.Point()
	if n := len(p.free); n > 0 {
		v := p.free[n-1]
		p.free = p.free[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v any) {
	if v != nil {
		p.free = append(p.free, v)
	}
	rt.Point()
}

type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) Load(k any) (any, bool) {
	rt.Point()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v any) { m.Swap(k, v) }
func (m *Map) Swap(k, v any) (any, bool) {
	rt.Point()
	if m.m == nil {
		m.m = map[any]any{}
	}
	old, ok := m.m[k]
	if !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	return old, ok
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	rt.Point()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.keys = append(m.keys, k)
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	rt.Point()
	v, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, old, new any) bool {
	rt.Point()
	if v, ok := m.m[k]; ok && v == old {
		m.m[k] = new
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old any) bool {
	rt.Point()
	if v, ok := m.m[k]; ok && v == old {
		m.LoadAndDelete(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	rt.Point()
	for _, k := range append([]any(nil), m.keys...) {
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}
func (m *Map) Clear() { m.m, m.keys = nil, nil }

// Package ssync stands in for package sync.
package ssync

import (
	"sync"

	"github.com/jart/gosip/zsim/rt"
)

type Locker = sync.Locker

type Mutex struct {
	held bool
	q    rt.WaitQ
}

func (m *Mutex) Lock() {
	if rt.Killing() {
		return
	}
	rt.Point("lock")
	for m.held {
		m.q.Wait("lock", 0)
	}
	m.held = true
}

func (m *Mutex) TryLock() bool {
	if rt.Killing() {
		return true
	}
	rt.Point("trylock")
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	if rt.Killing() {
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	m.q.WakeOne()
	rt.Point("unlock")
}

type RWMutex struct {
	w bool
	r int
	q rt.WaitQ
}

func (m *RWMutex) Lock() {
	if rt.Killing() {
		return
	}
	rt.Point("lock")
	for m.w || m.r > 0 {
		m.q.Wait("lock", 0)
	}
	m.w = true
}
func (m *RWMutex) Unlock() {
	if rt.Killing() {
		return
	}
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.q.WakeAll()
	rt.Point("unlock")
}
func (m *RWMutex) RLock() {
	if rt.Killing() {
		return
	}
	rt.Point("rlock")
	for m.w {
		m.q.Wait("rlock", 0)
	}
	m.r++
}
func (m *RWMutex) RUnlock() {
	if rt.Killing() {
		return
	}
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	m.q.WakeAll()
	rt.Point("runlock")
}
func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.r++
	return true
}
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct {
	n int
	q rt.WaitQ
}

func (w *WaitGroup) Add(d int) {
	if rt.Killing() {
		return
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.WakeAll()
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	rt.Point("wgwait")
	for w.n > 0 {
		w.q.Wait("waitgroup", 0)
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() { defer w.Done(); f() })
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type Cond struct {
	L Locker
	q rt.WaitQ
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	c.L.Unlock()
	c.q.Wait("cond", 0)
	c.L.Lock()
}
func (c *Cond) Signal()    { c.q.WakeOne() }
func (c *Cond) Broadcast() { c.q.WakeAll() }

// Pool hands back what was put last, which is the legal behaviour most likely
// to expose use after Put.
type Pool struct {
	New func() any
	l   []any
}

func (p *Pool) Get() any {
	if n := len(p.l); n > 0 {
		v := p.l[n-1]
		p.l = p.l[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v any) { p.l = append(p.l, v) }

type Map struct{ m map[any]any }

func (m *Map) Load(k any) (any, bool) { v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.Store(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Delete(k any) { delete(m.m, k) }
func (m *Map) Range(f func(k, v any) bool) {
	for _, k := range rt.Keys(m.m) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}
func (m *Map) Swap(k, v any) (any, bool) {
	x, ok := m.m[k]
	m.Store(k, v)
	return x, ok
}
func (m *Map) CompareAndSwap(k, old, v any) bool {
	if x, ok := m.m[k]; !ok || x != old {
		return false
	}
	m.m[k] = v
	return true
}
func (m *Map) CompareAndDelete(k, old any) bool {
	if x, ok := m.m[k]; !ok || x != old {
		return false
	}
	delete(m.m, k)
	return true
}
func (m *Map) Clear() { m.m = nil }

// Package sync is sync for simulated programs: waiting is known to the
// simulator's scheduler.
package sync

import (
	rs "sync"

	"github.com/teamlint/baron/zz_sim/k"
)

type Locker = rs.Locker

type state struct {
	w       bool
	readers int
	n       int
}

func wait(cond func() bool) {
	p := k.Self()
	if p == nil {
		if cond() {
			panic("harness: waiting outside the simulation")
		}
		return
	}
	p.Block(cond)
}

// Mutex is a lock.
type Mutex struct{ s *state }

func (m *Mutex) st() *state {
	if m.s == nil {
		m.s = &state{}
	}
	return m.s
}
func (m *Mutex) Lock() {
	s := m.st()
	k.Yield()
	wait(func() bool { return s.w })
	s.w = true
}
func (m *Mutex) TryLock() bool {
	s := m.st()
	k.Yield()
	if s.w {
		return false
	}
	s.w = true
	return true
}
func (m *Mutex) Unlock() {
	s := m.st()
	if !s.w {
		panic("sync: unlock of unlocked mutex")
	}
	s.w = false
	k.YieldLive()
}

// RWMutex is a lock with many readers.
type RWMutex struct{ s *state }

func (m *RWMutex) st() *state {
	if m.s == nil {
		m.s = &state{}
	}
	return m.s
}
func (m *RWMutex) Lock() {
	s := m.st()
	k.Yield()
	wait(func() bool { return s.w || s.readers > 0 })
	s.w = true
}
func (m *RWMutex) TryLock() bool {
	s := m.st()
	if s.w || s.readers > 0 {
		return false
	}
	s.w = true
	return true
}
func (m *RWMutex) Unlock() {
	s := m.st()
	if !s.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	s.w = false
	k.YieldLive()
}
func (m *RWMutex) RLock() {
	s := m.st()
	k.Yield()
	wait(func() bool { return s.w })
	s.readers++
}
func (m *RWMutex) TryRLock() bool {
	s := m.st()
	if s.w {
		return false
	}
	s.readers++
	return true
}
func (m *RWMutex) RUnlock() {
	s := m.st()
	if s.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	s.readers--
	k.YieldLive()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()            { r.m.RLock() }
func (r rlocker) Unlock()          { r.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Once runs something once.
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// WaitGroup waits for several things.
type WaitGroup struct{ s *state }

func (g *WaitGroup) st() *state {
	if g.s == nil {
		g.s = &state{}
	}
	return g.s
}
func (g *WaitGroup) Add(n int) {
	s := g.st()
	s.n += n
	if s.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (g *WaitGroup) Done() { g.Add(-1); k.YieldLive() }
func (g *WaitGroup) Wait() {
	s := g.st()
	k.Yield()
	wait(func() bool { return s.n > 0 })
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	k.Go(func() { defer g.Done(); f() })
}

// Cond is a condition variable.
type Cond struct {
	L  Locker
	ws []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	b := new(bool)
	c.ws = append(c.ws, b)
	c.L.Unlock()
	wait(func() bool { return !*b })
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.ws) > 0 {
		*c.ws[0] = true
		c.ws = c.ws[1:]
	}
}
func (c *Cond) Broadcast() {
	for _, b := range c.ws {
		*b = true
	}
	c.ws = nil
}

// Pool hands things back in an order nobody can rely on.
type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Get() interface{} {
	k.Yield()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x interface{}) {
	if x != nil {
		p.items = append(p.items, x)
	}
	k.YieldLive()
}

// Map is a map for many threads.
type Map struct {
	keys []interface{}
	m    map[interface{}]interface{}
}

func (m *Map) Load(key interface{}) (interface{}, bool) { k.Yield(); v, ok := m.m[key]; return v, ok }
func (m *Map) Store(key, v interface{})                 { m.Swap(key, v) }
func (m *Map) Swap(key, v interface{}) (interface{}, bool) {
	k.Yield()
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	old, had := m.m[key]
	if !had {
		m.keys = append(m.keys, key)
	}
	m.m[key] = v
	return old, had
}
func (m *Map) LoadOrStore(key, v interface{}) (interface{}, bool) {
	k.Yield()
	if old, ok := m.m[key]; ok {
		return old, true
	}
	m.Swap(key, v)
	return v, false
}
func (m *Map) LoadAndDelete(key interface{}) (interface{}, bool) {
	k.Yield()
	v, ok := m.m[key]
	if ok {
		delete(m.m, key)
		for i, q := range m.keys {
			if q == key {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
	return v, ok
}
func (m *Map) Delete(key interface{}) { m.LoadAndDelete(key) }
func (m *Map) CompareAndSwap(key, old, v interface{}) bool {
	k.Yield()
	if o, ok := m.m[key]; ok && o == old {
		m.m[key] = v
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(key, old interface{}) bool {
	k.Yield()
	if o, ok := m.m[key]; ok && o == old {
		m.LoadAndDelete(key)
		return true
	}
	return false
}
func (m *Map) Clear() { m.keys, m.m = nil, nil }
func (m *Map) Range(f func(key, v interface{}) bool) {
	keys := append([]interface{}(nil), m.keys...)
	k.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	for _, q := range keys {
		if v, ok := m.m[q]; ok && !f(q, v) {
			return
		}
	}
}

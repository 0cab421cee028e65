// Package vsync stands in for package sync: blocking operations are decisions
// of the scheduler in vsched.
package vsync

import (
	"sync"

	"verif/vsched"
)

type Locker interface {
	Lock()
	Unlock()
}

// Mutex keeps its state in the first word, 1 meaning locked, as sync.Mutex does
// (code that peeks at it through unsafe keeps working).
type Mutex struct {
	state int32
	sema  uint32
}

func (m *Mutex) Lock() {
	vsched.P(0)
	if m.state != 0 {
		vsched.Block("mutex", func() bool { return m.state == 0 })
		if vsched.Aborting() && vsched.Active() {
			return
		}
	}
	m.state = 1
	vsched.Changed()
}

func (m *Mutex) TryLock() bool {
	vsched.P(0)
	if m.state != 0 {
		vsched.Yield()
		return false
	}
	m.state = 1
	vsched.Changed()
	return true
}

func (m *Mutex) Unlock() {
	vsched.P(0)
	if vsched.Active() && vsched.Aborting() {
		return
	}
	if m.state == 0 {
		panic("sync: unlock of unlocked mutex")
	}
	m.state = 0
	vsched.Changed()
}

// RWMutex: as in package sync, a waiting writer keeps new readers out.
type RWMutex struct {
	w       int32
	readers int32
	waiting int32
}

func (m *RWMutex) Lock() {
	vsched.P(0)
	if m.w != 0 || m.readers != 0 {
		m.waiting++
		vsched.Changed()
		vsched.Block("rwmutex", func() bool { return m.w == 0 && m.readers == 0 })
		if vsched.Aborting() && vsched.Active() {
			return
		}
		m.waiting--
	}
	m.w = 1
	vsched.Changed()
}

func (m *RWMutex) TryLock() bool {
	vsched.P(0)
	if m.w != 0 || m.readers != 0 {
		vsched.Yield()
		return false
	}
	m.w = 1
	vsched.Changed()
	return true
}

func (m *RWMutex) Unlock() {
	vsched.P(0)
	if vsched.Active() && vsched.Aborting() {
		return
	}
	if m.w == 0 {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = 0
	vsched.Changed()
}

func (m *RWMutex) RLock() {
	vsched.P(0)
	if m.w != 0 || m.waiting != 0 {
		vsched.Block("rwmutex (read)", func() bool { return m.w == 0 && m.waiting == 0 })
		if vsched.Aborting() && vsched.Active() {
			return
		}
	}
	m.readers++
	vsched.Changed()
}

func (m *RWMutex) TryRLock() bool {
	vsched.P(0)
	if m.w != 0 || m.waiting != 0 {
		vsched.Yield()
		return false
	}
	m.readers++
	vsched.Changed()
	return true
}

func (m *RWMutex) RUnlock() {
	vsched.P(0)
	if vsched.Active() && vsched.Aborting() {
		return
	}
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	vsched.Changed()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct {
	n    int
	real sync.WaitGroup
}

func (w *WaitGroup) Add(d int) {
	if !vsched.Active() {
		w.real.Add(d)
		return
	}
	vsched.P(0)
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	vsched.Changed()
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if !vsched.Active() {
		w.real.Wait()
		return
	}
	vsched.P(0)
	if w.n != 0 {
		vsched.Block("waitgroup", func() bool { return w.n == 0 })
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() { defer w.Done(); f() })
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	vsched.P(0)
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Get() interface{} {
	vsched.P(0)
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x interface{}) {
	vsched.P(0)
	if x != nil {
		p.items = append(p.items, x)
	}
}

// Map: every operation is one atomic step, as sync.Map's are.
type Map struct {
	m    map[interface{}]interface{}
	keys []interface{}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	vsched.P(0)
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) store(k, v interface{}) {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) del(k interface{}) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(append([]interface{}{}, m.keys[:i]...), m.keys[i+1:]...)
			break
		}
	}
}
func (m *Map) Store(k, v interface{}) { vsched.P(0); m.store(k, v) }
func (m *Map) Clear()                 { vsched.P(0); m.m, m.keys = nil, nil }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	vsched.P(0)
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.store(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	vsched.P(0)
	o, ok := m.m[k]
	m.del(k)
	return o, ok
}
func (m *Map) Delete(k interface{}) { vsched.P(0); m.del(k) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	vsched.P(0)
	o, ok := m.m[k]
	m.store(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	vsched.P(0)
	if c, ok := m.m[k]; ok && c == o {
		m.store(k, n)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	vsched.P(0)
	if c, ok := m.m[k]; ok && c == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	vsched.P(0)
	for _, k := range append([]interface{}{}, m.keys...) {
		vsched.P(0)
		v, ok := m.m[k]
		if ok && !f(k, v) {
			return
		}
	}
}

type Cond struct {
	L   Locker
	gen []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	woken := false
	c.gen = append(c.gen, &woken)
	c.L.Unlock()
	vsched.Block("cond", func() bool { return woken })
	c.L.Lock()
}
func (c *Cond) Signal() {
	vsched.P(0)
	if len(c.gen) > 0 {
		*c.gen[0] = true
		c.gen = c.gen[1:]
	}
	vsched.Changed()
}
func (c *Cond) Broadcast() {
	vsched.P(0)
	for _, w := range c.gen {
		*w = true
	}
	c.gen = nil
	vsched.Changed()
}

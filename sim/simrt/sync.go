package simrt

import (
	"fmt"
	"iter"
	"runtime"
	"sort"
	"sync"
	"unsafe"
)

// Locker mirrors sync.Locker.
type Locker = sync.Locker

type wq struct {
	ep uint64
	q  []*task
}

func (w *wq) wait(why string) {
	x := s
	if w.ep != epoch {
		w.ep, w.q = epoch, nil
	}
	w.q = append(w.q, x.cur)
	x.block(why)
}

func (w *wq) wake() {
	if w.ep != epoch {
		w.q = nil
	}
	q := w.q
	w.q = nil
	for _, t := range q {
		s.ready(t)
	}
}

func (w *wq) wakeOne() bool {
	if w.ep != epoch || len(w.q) == 0 {
		return false
	}
	t := w.q[0]
	w.q = w.q[1:]
	s.ready(t)
	return true
}

func off() bool { return s == nil || s.dying }

// Mutex is a simulated sync.Mutex: waiters compete, no hand-off.
type Mutex struct {
	ep     uint64
	locked bool
	w      wq
}

func (m *Mutex) fresh() {
	if m.ep != epoch {
		m.ep, m.locked = epoch, false
	}
}

func (m *Mutex) Lock() {
	if off() {
		return
	}
	SP()
	m.fresh()
	for m.locked {
		m.w.wait("mutex")
	}
	m.locked = true
	Acq(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	if off() {
		return true
	}
	SP()
	m.fresh()
	if m.locked {
		return false
	}
	m.locked = true
	Acq(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	if off() {
		return
	}
	m.fresh()
	if !m.locked {
		Fatal("sync: unlock of unlocked mutex")
	}
	Rel(unsafe.Pointer(m))
	m.locked = false
	m.w.wakeOne()
	SP()
}

// RWMutex is a simulated sync.RWMutex: a waiting writer blocks new readers.
type RWMutex struct {
	ep      uint64
	readers int
	writer  bool
	pending int
	w       wq
}

func (m *RWMutex) fresh() {
	if m.ep != epoch {
		m.ep, m.readers, m.writer, m.pending = epoch, 0, false, 0
	}
}

func (m *RWMutex) RLock() {
	if off() {
		return
	}
	SP()
	m.fresh()
	for m.writer || m.pending > 0 {
		m.w.wait("rwmutex read lock")
	}
	m.readers++
	Acq(unsafe.Pointer(&m.writer))
}

func (m *RWMutex) TryRLock() bool {
	if off() {
		return true
	}
	SP()
	m.fresh()
	if m.writer || m.pending > 0 {
		return false
	}
	m.readers++
	Acq(unsafe.Pointer(&m.writer))
	return true
}

func (m *RWMutex) RUnlock() {
	if off() {
		return
	}
	m.fresh()
	if m.readers <= 0 {
		Fatal("sync: RUnlock of unlocked RWMutex")
	}
	Rel(unsafe.Pointer(&m.readers))
	m.readers--
	if m.readers == 0 {
		m.w.wake()
	}
	SP()
}

func (m *RWMutex) Lock() {
	if off() {
		return
	}
	SP()
	m.fresh()
	m.pending++
	for m.writer || m.readers > 0 {
		m.w.wait("rwmutex write lock")
	}
	m.pending--
	m.writer = true
	Acq(unsafe.Pointer(&m.writer))
	Acq(unsafe.Pointer(&m.readers))
}

func (m *RWMutex) TryLock() bool {
	if off() {
		return true
	}
	SP()
	m.fresh()
	if m.writer || m.readers > 0 || m.pending > 0 {
		return false
	}
	m.writer = true
	Acq(unsafe.Pointer(&m.writer))
	Acq(unsafe.Pointer(&m.readers))
	return true
}

func (m *RWMutex) Unlock() {
	if off() {
		return
	}
	m.fresh()
	if !m.writer {
		Fatal("sync: Unlock of unlocked RWMutex")
	}
	Rel(unsafe.Pointer(&m.writer))
	m.writer = false
	m.w.wake()
	SP()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is a simulated sync.WaitGroup.
type WaitGroup struct {
	ep uint64
	n  int
	w  wq
}

func (g *WaitGroup) fresh() {
	if g.ep != epoch {
		g.ep, g.n = epoch, 0
	}
}

func (g *WaitGroup) Add(d int) {
	if off() {
		return
	}
	SP()
	g.fresh()
	if d < 0 {
		Rel(unsafe.Pointer(g))
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		g.w.wake()
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	if off() {
		return
	}
	SP()
	g.fresh()
	for g.n > 0 {
		g.w.wait("waitgroup")
	}
	Acq(unsafe.Pointer(g))
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	spawnTask("go", func() { defer g.Done(); f() }, false)
}

// Once is a simulated sync.Once.
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	SP()
	if o.done {
		Acq(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			Rel(unsafe.Pointer(o))
			o.done = true
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Cond is a simulated sync.Cond.
type Cond struct {
	L Locker
	w wq
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if off() {
		runtime.Goexit()
	}
	if c.w.ep != epoch {
		c.w.ep, c.w.q = epoch, nil
	}
	// Register before unlocking, as sync.Cond does.
	t := s.cur
	c.w.q = append(c.w.q, t)
	woken := false
	_ = woken
	c.L.Unlock()
	for _, o := range c.w.q {
		if o == t {
			s.block("cond")
			break
		}
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	if off() {
		return
	}
	SP()
	if c.w.ep != epoch || len(c.w.q) == 0 {
		return
	}
	t := c.w.q[0]
	c.w.q = c.w.q[1:]
	s.ready(t)
}

func (c *Cond) Broadcast() {
	if off() {
		return
	}
	SP()
	c.w.wake()
}

// Pool is a simulated sync.Pool: items survive or are dropped as the run's generator decides.
type Pool struct {
	New   func() any
	ep    uint64
	items []any
}

func (p *Pool) Get() any {
	if !off() {
		SP()
		if p.ep != epoch {
			p.ep, p.items = epoch, nil
		}
		if n := len(p.items); n > 0 && s.lib.Intn(10) > 0 {
			i := s.lib.Intn(n)
			v := p.items[i]
			Acq(unsafe.Pointer(p))
			p.items = append(p.items[:i], p.items[i+1:]...)
			return v
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if off() || v == nil {
		return
	}
	SP()
	if p.ep != epoch {
		p.ep, p.items = epoch, nil
	}
	Rel(unsafe.Pointer(p))
	p.items = append(p.items, v)
}

// Map is a simulated sync.Map.
type Map struct {
	keys []any
	m    map[any]any
	busy int
}

// step is what happens inside an operation: a map that is assigned another value
// meanwhile loses its internal lock.
func (m *Map) step(change bool) {
	m.busy++
	SP()
	if m.busy--; m.busy < 0 {
		Fatal("sync: unlock of unlocked mutex (map overwritten while in use)")
	}
	Acq(unsafe.Pointer(m))
	if change {
		Rel(unsafe.Pointer(m))
	}
}

func (m *Map) Load(k any) (any, bool) {
	m.step(false)
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v any) {
	m.step(true)
	m.set(k, v)
}

func (m *Map) set(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.step(true)
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, o := range m.keys {
		if o == k {
			m.keys = append(append([]any{}, m.keys[:i]...), m.keys[i+1:]...)
			return
		}
	}
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.step(true)
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

func (m *Map) Delete(k any) {
	m.step(true)
	m.del(k)
}

func (m *Map) Swap(k, v any) (any, bool) {
	m.step(true)
	o, ok := m.m[k]
	m.set(k, v)
	return o, ok
}

func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.step(true)
	if o, ok := m.m[k]; ok && o == old {
		m.m[k] = new
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old any) bool {
	m.step(true)
	if o, ok := m.m[k]; ok && o == old {
		m.del(k)
		return true
	}
	return false
}

func (m *Map) Clear() {
	m.step(true)
	m.m, m.keys = nil, nil
}

func (m *Map) Range(f func(k, v any) bool) {
	m.step(false)
	for _, k := range append([]any{}, m.keys...) {
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}

// MapIter iterates a map in an order decided by the run's generator instead of the runtime's.
func MapIter[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		if len(m) == 0 {
			return
		}
		keys := make([]K, 0, len(m))
		names := make(map[K]string, len(m))
		for k := range m {
			keys = append(keys, k)
			names[k] = fmt.Sprint(k)
		}
		sort.Slice(keys, func(i, j int) bool { return names[keys[i]] < names[keys[j]] })
		if !off() && len(keys) > 1 {
			for i := len(keys) - 1; i > 0; i-- {
				j := s.lib.Intn(i + 1)
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// LibRand is the generator for choices the language leaves open.
func LibRand() *Rand {
	if s == nil {
		return NewRand(1)
	}
	return s.lib
}

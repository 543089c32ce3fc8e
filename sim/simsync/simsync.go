// Package simsync replaces package sync in instrumented code. Its locks are
// scheduled by the simulator and have the semantics of the real ones (in
// particular: a waiting writer keeps new readers out of an RWMutex). In a
// -race build they create the happens-before edges of the real ones.
package simsync

import (
	"sync"

	"verif.local/sim/rt"
)

type (
	// Locker is sync.Locker.
	Locker = sync.Locker
	// Map is sync.Map; its operations contain no preemption point.
	Map = sync.Map
)

const (
	modeLock = iota
	modeRLock
)

// Mutex is a simulated sync.Mutex.
type Mutex struct {
	held bool
	hb   int32
}

//go:norace
func (m *Mutex) Ready(int) bool { return !m.held }

// Lock locks m.
//
//go:norace
func (m *Mutex) Lock() {
	rt.Y(-1)
	for m.held {
		if !rt.Block(m, modeLock) {
			panic("simsync: lock of a locked mutex outside the simulation")
		}
	}
	m.held = true
	rt.RaceAcquire(&m.hb)
}

// TryLock tries to lock m.
//
//go:norace
func (m *Mutex) TryLock() bool {
	rt.Y(-1)
	if m.held {
		return false
	}
	m.held = true
	rt.RaceAcquire(&m.hb)
	return true
}

// Unlock unlocks m.
//
//go:norace
func (m *Mutex) Unlock() {
	if !m.held {
		rt.Fatal("sync: unlock of unlocked mutex")
	}
	rt.RaceRelease(&m.hb)
	m.held = false
	rt.Y(-1)
}

// RWMutex is a simulated sync.RWMutex.
type RWMutex struct {
	writer   bool
	readers  int
	waiting  int // writers that wait
	readerHB int32
	writerHB int32
	queue    []*rwait // readers that wait
}

type rwait struct {
	m        *RWMutex
	admitted bool
}

//go:norace
func (w *rwait) Ready(int) bool { return w.admitted || w.m.Ready(modeRLock) }

//go:norace
func (m *RWMutex) Ready(mode int) bool {
	if mode == modeRLock {
		return !m.writer && m.waiting == 0
	}
	return !m.writer && m.readers == 0
}

// RLock locks m for reading.
//
//go:norace
func (m *RWMutex) RLock() {
	rt.Y(-1)
	if m.Ready(modeRLock) {
		m.readers++
	} else {
		m.waitRLock()
	}
	rt.RaceAcquire(&m.readerHB)
}

//go:norace
func (m *RWMutex) waitRLock() {
	w := &rwait{m: m}
	m.queue = push(m.queue, w)
	for !w.Ready(0) {
		if !rt.Block(w, 0) {
			panic("simsync: rlock of a locked rwmutex outside the simulation")
		}
	}
	if w.admitted {
		return
	}
	m.readers++
	for i, x := range m.queue {
		if x == w {
			m.queue[i] = m.queue[len(m.queue)-1]
			m.queue = m.queue[:len(m.queue)-1]
			return
		}
	}
}

// push is append, which the race detector would see.
//
//go:norace
func push(l []*rwait, w *rwait) []*rwait {
	if len(l) == cap(l) {
		n := make([]*rwait, len(l), 2*cap(l)+4)
		for i, x := range l {
			n[i] = x
		}
		l = n
	}
	l = l[:len(l)+1]
	l[len(l)-1] = w
	return l
}

// TryRLock tries to lock m for reading.
//
//go:norace
func (m *RWMutex) TryRLock() bool {
	rt.Y(-1)
	if !m.Ready(modeRLock) {
		return false
	}
	m.readers++
	rt.RaceAcquire(&m.readerHB)
	return true
}

// RUnlock undoes RLock.
//
//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		rt.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	rt.RaceReleaseMerge(&m.writerHB)
	m.readers--
	rt.Y(-1)
}

// Lock locks m for writing.
//
//go:norace
func (m *RWMutex) Lock() {
	rt.Y(-1)
	m.waiting++
	for !m.Ready(modeLock) {
		if !rt.Block(m, modeLock) {
			panic("simsync: lock of a locked rwmutex outside the simulation")
		}
	}
	m.waiting--
	m.writer = true
	rt.RaceAcquire(&m.readerHB)
	rt.RaceAcquire(&m.writerHB)
}

// TryLock tries to lock m for writing.
//
//go:norace
func (m *RWMutex) TryLock() bool {
	rt.Y(-1)
	if !m.Ready(modeLock) {
		return false
	}
	m.writer = true
	rt.RaceAcquire(&m.readerHB)
	rt.RaceAcquire(&m.writerHB)
	return true
}

// Unlock undoes Lock.
//
//go:norace
func (m *RWMutex) Unlock() {
	if !m.writer {
		rt.Fatal("sync: Unlock of unlocked RWMutex")
	}
	rt.RaceRelease(&m.readerHB)
	m.writer = false
	// the readers that wait go first
	m.readers += len(m.queue)
	for _, w := range m.queue {
		w.admitted = true
	}
	m.queue = m.queue[:0]
	rt.Y(-1)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is a simulated sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f the first time.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// Pool is a deterministic sync.Pool: last in, first out, nothing dropped.
type Pool struct {
	m     Mutex
	items []interface{}
	New   func() interface{}
}

// Get takes the item put last.
func (p *Pool) Get() interface{} {
	p.m.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put stores x.
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.items = append(p.items, x)
	p.m.Unlock()
}

// WaitGroup is a simulated sync.WaitGroup.
type WaitGroup struct {
	n  int
	hb int32
}

//go:norace
func (w *WaitGroup) Ready(int) bool { return w.n == 0 }

// Add adds delta.
//
//go:norace
func (w *WaitGroup) Add(delta int) {
	rt.RaceReleaseMerge(&w.hb)
	w.n += delta
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1); rt.Y(-1) }

// Go runs f in a new task.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() { defer w.Done(); f() })
}

// Wait waits for the counter to be zero.
//
//go:norace
func (w *WaitGroup) Wait() {
	rt.Y(-1)
	for w.n != 0 {
		if !rt.Block(w, 0) {
			panic("simsync: wait outside the simulation")
		}
	}
	rt.RaceAcquire(&w.hb)
}

// Cond is a simulated sync.Cond.
type Cond struct {
	L     Locker
	queue []*condWait
}

type condWait struct{ woken bool }

func (c *condWait) Ready(int) bool { return c.woken }

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for Signal or Broadcast.
func (c *Cond) Wait() {
	w := &condWait{}
	c.queue = append(c.queue, w)
	c.L.Unlock()
	for !w.woken {
		if !rt.Block(w, 0) {
			panic("simsync: wait outside the simulation")
		}
	}
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	if len(c.queue) > 0 {
		c.queue[0].woken = true
		c.queue = c.queue[1:]
	}
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	for _, w := range c.queue {
		w.woken = true
	}
	c.queue = nil
}

// Package simsync replaces package sync in the instrumented copy of the code
// under test, so that locks block in simulated, not real, threads and pools
// hand out what the seed says.
package simsync

import (
	"sync"

	"verif.local/gitsim/simhook"
)

type Locker = sync.Locker
type Map = sync.Map

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	for !m.m.TryLock() {
		simhook.Block()
	}
}
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	for !m.m.TryLock() {
		simhook.Block()
	}
}
func (m *RWMutex) RLock() {
	for !m.m.TryRLock() {
		simhook.Block()
	}
}
func (m *RWMutex) TryLock() bool  { return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { return m.m.TryRLock() }
func (m *RWMutex) Unlock()        { m.m.Unlock() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock() }
func (m *RWMutex) RLocker() Locker {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	mu   sync.Mutex
	done bool
}

func (o *Once) isDone() bool { o.mu.Lock(); defer o.mu.Unlock(); return o.done }

func (o *Once) Do(f func()) {
	if o.isDone() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer func() { o.mu.Lock(); o.done = true; o.mu.Unlock() }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

type WaitGroup struct {
	mu sync.Mutex
	n  int
}

func (w *WaitGroup) Add(d int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go func() { defer w.Done(); f() }()
}
func (w *WaitGroup) Wait() {
	for {
		w.mu.Lock()
		n := w.n
		w.mu.Unlock()
		if n == 0 {
			return
		}
		simhook.Block()
	}
}

type Cond struct {
	L   Locker
	mu  sync.Mutex
	gen int
	sig int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.mu.Lock()
	gen := c.gen
	c.mu.Unlock()
	c.L.Unlock()
	for {
		c.mu.Lock()
		ok := c.gen != gen
		if !ok && c.sig > 0 {
			c.sig--
			ok = true
		}
		c.mu.Unlock()
		if ok {
			break
		}
		simhook.Block()
	}
	c.L.Lock()
}
func (c *Cond) Signal()    { c.mu.Lock(); c.sig++; c.mu.Unlock() }
func (c *Cond) Broadcast() { c.mu.Lock(); c.gen++; c.sig = 0; c.mu.Unlock() }

// Pool hands out any pooled item, or a new one, as the seed decides.
type Pool struct {
	New   func() any
	mu    sync.Mutex
	items []any
}

func (p *Pool) Get() any {
	p.mu.Lock()
	if n := len(p.items); n > 0 {
		// 0: the most recently returned item, as sync.Pool most often does.
		if k := simhook.Choose(n + 1); k < n {
			i := n - 1 - k
			x := p.items[i]
			p.items = append(p.items[:i], p.items[i+1:]...)
			p.mu.Unlock()
			return x
		}
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.mu.Lock()
	if len(p.items) < 64 {
		p.items = append(p.items, x)
	}
	p.mu.Unlock()
}

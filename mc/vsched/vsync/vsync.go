// Package sync stands in for the standard sync package in the instrumented copy of the
// repository: same API, but waiting is visible to the controlled scheduler and pools are
// deterministic.
package sync

import (
	"sync"
	"sync/atomic"

	"verif/mc/vsched"
)

type (
	Map    = sync.Map
	Locker = sync.Locker
)

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	if !vsched.Active() {
		m.m.Lock()
		return
	}
	vsched.Yield()
	for !m.m.TryLock() {
		vsched.Block(m)
	}
}
func (m *Mutex) TryLock() bool { vsched.Yield(); return m.m.TryLock() }
func (m *Mutex) Unlock() {
	m.m.Unlock()
	vsched.Wake(m)
	vsched.Yield()
}

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	if !vsched.Active() {
		m.m.Lock()
		return
	}
	vsched.Yield()
	for !m.m.TryLock() {
		vsched.Block(m)
	}
}
func (m *RWMutex) RLock() {
	if !vsched.Active() {
		m.m.RLock()
		return
	}
	vsched.Yield()
	for !m.m.TryRLock() {
		vsched.Block(m)
	}
}
func (m *RWMutex) TryLock() bool  { vsched.Yield(); return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { vsched.Yield(); return m.m.TryRLock() }
func (m *RWMutex) Unlock()        { m.m.Unlock(); vsched.Wake(m); vsched.Yield() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock(); vsched.Wake(m); vsched.Yield() }
func (m *RWMutex) RLocker() Locker {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done atomic.Bool
}

func (o *Once) Do(f func()) {
	vsched.Yield()
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

type WaitGroup struct {
	w sync.WaitGroup
	n atomic.Int64
}

func (w *WaitGroup) Add(d int) {
	w.w.Add(d)
	if w.n.Add(int64(d)) == 0 {
		vsched.Wake(w)
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if !vsched.Active() {
		w.w.Wait()
		return
	}
	vsched.Yield()
	for w.n.Load() > 0 {
		vsched.Block(w)
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go func() {
		defer w.Done()
		f()
	}()
}

type Cond struct {
	L  Locker
	mu sync.Mutex
	q  []*waiter
}

type waiter struct {
	ch   chan struct{}
	done atomic.Bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	w := &waiter{ch: make(chan struct{})}
	c.mu.Lock()
	c.q = append(c.q, w)
	c.mu.Unlock()
	c.L.Unlock()
	if vsched.Active() {
		for !w.done.Load() {
			vsched.Block(w)
		}
	} else {
		<-w.ch
	}
	c.L.Lock()
}

func (c *Cond) wake(n int) {
	c.mu.Lock()
	for n != 0 && len(c.q) > 0 {
		w := c.q[0]
		c.q = c.q[1:]
		w.done.Store(true)
		close(w.ch)
		vsched.Wake(w)
		n--
	}
	c.mu.Unlock()
}
func (c *Cond) Signal()    { c.wake(1) }
func (c *Cond) Broadcast() { c.wake(-1) }

// Pool is a deterministic pool: last in, first out, unless the explorer decides otherwise.
type Pool struct {
	New func() interface{}

	mu    sync.Mutex
	epoch int64
	items []interface{}
}

func (p *Pool) Get() interface{} {
	vsched.Yield()
	p.mu.Lock()
	if p.epoch != vsched.Epoch {
		p.epoch, p.items = vsched.Epoch, nil
	}
	n := len(p.items)
	k := 0
	if n > 0 {
		if vsched.PoolDev != nil {
			k = vsched.PoolDev(n)
		}
		if k < n {
			i := n - 1 - k
			x := p.items[i]
			p.items = append(p.items[:i:i], p.items[i+1:]...)
			p.mu.Unlock()
			return x
		}
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	vsched.Yield()
	p.mu.Lock()
	if p.epoch != vsched.Epoch {
		p.epoch, p.items = vsched.Epoch, nil
	}
	p.items = append(p.items, x)
	p.mu.Unlock()
}

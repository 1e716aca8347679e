package simsync

import "sync"

type Locker = sync.Locker

type Mutex struct {
	real   sync.Mutex
	locked bool
	vc     Clock
}

func (m *Mutex) Lock() {
	s := cur
	if s == nil {
		m.real.Lock()
		return
	}
	s.point()
	s.block("a mutex", func() bool { return !m.locked })
	m.locked = true
	held[m] = true
	s.acquire(m.vc)
}
func (m *Mutex) TryLock() bool {
	s := cur
	if s == nil {
		return m.real.TryLock()
	}
	s.point()
	if m.locked {
		return false
	}
	m.locked = true
	held[m] = true
	s.acquire(m.vc)
	return true
}
func (m *Mutex) Unlock() {
	s := cur
	if s == nil {
		m.real.Unlock()
		return
	}
	if !m.locked {
		if s.aborted {
			return
		}
		panic("sync: unlock of unlocked mutex")
	}
	m.vc = s.release(m.vc)
	m.locked = false
	delete(held, m)
	if !s.aborted {
		s.point()
	}
}

type RWMutex struct {
	real sync.RWMutex
	w    bool
	r    int
	wvc  Clock
	rvc  Clock
}

func (m *RWMutex) Lock() {
	s := cur
	if s == nil {
		m.real.Lock()
		return
	}
	s.point()
	s.block("a write lock", func() bool { return !m.w && m.r == 0 })
	m.w = true
	heldRW[m] = true
	s.acquire(m.wvc)
	s.acquire(m.rvc)
}
func (m *RWMutex) Unlock() {
	s := cur
	if s == nil {
		m.real.Unlock()
		return
	}
	if !m.w {
		if s.aborted {
			return
		}
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.wvc = s.release(m.wvc)
	m.w = false
	if !s.aborted {
		s.point()
	}
}
func (m *RWMutex) RLock() {
	s := cur
	if s == nil {
		m.real.RLock()
		return
	}
	s.point()
	s.block("a read lock", func() bool { return !m.w })
	m.r++
	heldRW[m] = true
	s.acquire(m.wvc)
}
func (m *RWMutex) RUnlock() {
	s := cur
	if s == nil {
		m.real.RUnlock()
		return
	}
	if m.r == 0 {
		if s.aborted {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.rvc = s.release(m.rvc)
	m.r--
	if !s.aborted {
		s.point()
	}
}
func (m *RWMutex) TryLock() bool {
	s := cur
	if s == nil {
		return m.real.TryLock()
	}
	if m.w || m.r > 0 {
		return false
	}
	m.Lock()
	return true
}
func (m *RWMutex) TryRLock() bool {
	s := cur
	if s == nil {
		return m.real.TryRLock()
	}
	if m.w {
		return false
	}
	m.RLock()
	return true
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()            { r.m.RLock() }
func (r rlocker) Unlock()          { r.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Once struct {
	m    Mutex
	done bool
	vc   Clock
}

func (o *Once) Do(f func()) {
	if s := cur; s != nil {
		s.point()
		if o.done {
			s.acquire(o.vc)
			return
		}
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			if s := cur; s != nil {
				o.vc = s.release(o.vc)
			}
			o.done = true
		}()
		f()
	}
}

func OnceFunc(f func()) func() { var o Once; return func() { o.Do(f) } }
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

type WaitGroup struct {
	real sync.WaitGroup
	n    int
	vc   Clock
}

func (w *WaitGroup) Add(d int) {
	if cur == nil {
		w.real.Add(d)
		return
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() {
	s := cur
	if s == nil {
		w.real.Done()
		return
	}
	w.vc = s.release(w.vc)
	w.n--
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if !s.aborted {
		s.point()
	}
}
func (w *WaitGroup) Wait() {
	s := cur
	if s == nil {
		w.real.Wait()
		return
	}
	s.point()
	s.block("a wait group", func() bool { return w.n == 0 })
	s.acquire(w.vc)
}

type Cond struct {
	L    Locker
	real *sync.Cond
	seq  int
	sig  int
}

func NewCond(l Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }
func (c *Cond) Wait() {
	s := cur
	if s == nil {
		c.real.Wait()
		return
	}
	me := c.seq
	c.seq++
	c.L.Unlock()
	s.block("a condition", func() bool { return c.sig > me })
	c.L.Lock()
}
func (c *Cond) Signal() {
	if cur == nil {
		c.real.Signal()
		return
	}
	if c.sig < c.seq {
		c.sig++
	}
}
func (c *Cond) Broadcast() {
	if cur == nil {
		c.real.Broadcast()
		return
	}
	c.sig = c.seq
}

// Map wraps sync.Map; every operation is atomic and carries happens-before edges.
type Map struct {
	real sync.Map
	vc   Clock
}

func (m *Map) op() {
	if s := cur; s != nil {
		s.point()
		s.acquire(m.vc)
		m.vc = s.release(m.vc)
	}
}
func (m *Map) Load(k any) (any, bool)           { m.op(); return m.real.Load(k) }
func (m *Map) Store(k, v any)                   { m.op(); m.real.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { m.op(); return m.real.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { m.op(); return m.real.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { m.op(); m.real.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { m.op(); return m.real.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { m.op(); return m.real.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { m.op(); return m.real.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { m.op(); m.real.Range(f) }
func (m *Map) Clear()                           { m.op(); m.real.Clear() }

// Pool is a plain free list.
type Pool struct {
	New  func() any
	free []any
	m    Mutex
}

func (p *Pool) Get() any {
	p.m.Lock()
	var x any
	if n := len(p.free); n > 0 {
		x, p.free = p.free[n-1], p.free[:n-1]
	}
	p.m.Unlock()
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}
func (p *Pool) Put(x any) {
	p.m.Lock()
	p.free = append(p.free, x)
	p.m.Unlock()
}

package rt

import "sync"

// Stand-ins for package sync in instrumented code. A thread that would block
// is descheduled by the simulator. Each also operates the real primitive (which
// is then never contended), so that the race oracle sees its edges.

type Mutex struct {
	real sync.Mutex
	held bool
}

//go:norace
func (m *Mutex) free() bool { return !m.held }

//go:norace
func (m *Mutex) Lock() {
	H(0)
	for m.held && sim != nil && cur != nil {
		sim.block(cur, m)
	}
	if m.held {
		panic("verifsim: lock is never released")
	}
	m.held = true
	m.real.Lock()
}

//go:norace
func (m *Mutex) TryLock() bool {
	H(0)
	if m.held {
		return false
	}
	m.held = true
	m.real.Lock()
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	m.real.Unlock()
	m.held = false
	H(0)
}

type RWMutex struct {
	real sync.RWMutex
	w    bool
	r    int
}

type wfree struct{ m *RWMutex }

//go:norace
func (w wfree) free() bool { return !w.m.w && w.m.r == 0 }

//go:norace
func (m *RWMutex) free() bool { return !m.w }

//go:norace
func (m *RWMutex) Lock() {
	H(0)
	for (m.w || m.r > 0) && sim != nil && cur != nil {
		sim.block(cur, wfree{m})
	}
	if m.w || m.r > 0 {
		panic("verifsim: lock is never released")
	}
	m.w = true
	m.real.Lock()
}

//go:norace
func (m *RWMutex) TryLock() bool {
	H(0)
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	m.real.Lock()
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	m.real.Unlock()
	m.w = false
	H(0)
}

//go:norace
func (m *RWMutex) RLock() {
	H(0)
	for m.w && sim != nil && cur != nil {
		sim.block(cur, m)
	}
	if m.w {
		panic("verifsim: lock is never released")
	}
	m.r++
	m.real.RLock()
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	H(0)
	if m.w {
		return false
	}
	m.r++
	m.real.RLock()
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	m.real.RUnlock()
	m.r--
	H(0)
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.set()
		f()
	}
}

//go:norace
func (o *Once) set() { o.done = true }

type WaitGroup struct {
	real sync.WaitGroup
	n    int
}

//go:norace
func (w *WaitGroup) free() bool { return w.n <= 0 }

//go:norace
func (w *WaitGroup) Add(n int) {
	H(0)
	w.n += n
	w.real.Add(n)
}

//go:norace
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	H(0)
	for w.n > 0 && sim != nil && cur != nil {
		sim.block(cur, w)
	}
	w.real.Wait()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Pool hands objects out last-in first-out: the choice of a real pool that
// shares the most.
type Pool struct {
	New  func() any
	m    sync.Mutex
	free []any
}

func (p *Pool) Get() any {
	H(0)
	p.m.Lock()
	defer p.m.Unlock()
	if n := len(p.free); n > 0 {
		x := p.free[n-1]
		p.free = p.free[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	p.m.Lock()
	p.free = append(p.free, x)
	p.m.Unlock()
	H(0)
}

// Cond wakes waiters in the order they came.
type Cond struct {
	L    sync.Locker
	list []*condWait
}

type condWait struct {
	woken bool
	real  sync.Mutex // for the edge from waker to woken
}

//go:norace
func (w *condWait) free() bool { return w.woken }

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	w := &condWait{}
	c.list = append(c.list, w)
	c.L.Unlock()
	for !w.woken {
		if sim == nil || cur == nil {
			panic("verifsim: waiting for a condition for ever")
		}
		sim.block(cur, w)
	}
	w.real.Lock()
	w.real.Unlock()
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if len(c.list) > 0 {
		w := c.list[0]
		c.list = c.list[1:]
		w.real.Lock()
		w.real.Unlock()
		w.woken = true
	}
	H(0)
}

//go:norace
func (c *Cond) Broadcast() {
	for _, w := range c.list {
		w.real.Lock()
		w.real.Unlock()
		w.woken = true
	}
	c.list = nil
	H(0)
}

func OnceFunc(f func()) func() {
	var o Once
	var p any
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var x T
	g := OnceFunc(func() { x = f() })
	return func() T { g(); return x }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var x T
	var y U
	g := OnceFunc(func() { x, y = f() })
	return func() (T, U) { g(); return x, y }
}

// Package rt is the simulator: it owns the scheduling of all client threads.
//
// Client threads are real goroutines, but exactly one of them runs at any
// moment; control moves only inside this package, at the yield points (Y, H,
// P) that the instrumenter put into the library and the harness put around its
// operations. Which thread runs next, where it is interrupted, and how long it
// stays suspended are decided by one PRNG (or by a recorded list of
// preemptions when replaying).
//
// Everything here is marked norace, and the hand-off channels are used with
// the race runtime's synchronisation handling switched off: in a race build
// the scheduler therefore adds no happens-before edges between threads.
package rt

import (
	"runtime"
	"sync"
	"time"
)

const never = ^uint64(0)

// Preempt is one scheduling decision: in operation Op, after Step of its own
// steps, control moves to thread To; Stall says how long the interrupted
// thread stays suspended (0: it may be resumed at any time, n>0: until n more
// operations have completed elsewhere, -1: for ever).
type Preempt struct {
	Op    int    `json:"op"`
	Step  uint64 `json:"step"`
	To    int    `json:"to"`
	Stall int    `json:"stall,omitempty"`
	Site  uint32 `json:"site,omitempty"`
}

// Config selects how one run is scheduled.
type Config struct {
	Seed     uint64    `json:"seed"`
	Clock    uint64    `json:"-"` // decides how the clock jumps
	Replay   bool      `json:"replay"`
	Pre      []Preempt `json:"pre"`
	HotP     uint32    `json:"-"` // chance (of 65536) to preempt at a hot point
	OpP      uint32    `json:"-"` // chance (of 65536) to preempt at an operation boundary
	ColdMean uint64    `json:"-"` // mean distance of preemptions at arbitrary statements (0: none)
	StallP   uint32    `json:"-"` // chance (of 65536) that a preemption suspends the thread for a while
	AbandonP uint32    `json:"-"` // chance (of 65536) that a preemption suspends the thread for ever
	StallLen []int     `json:"-"` // for how many operations, if not a few
	MaxPre   int       `json:"-"`
	Victim   int       `json:"-"`      // 1+id of the only thread preempted at hot points (0: all are)
	Budget   uint64    `json:"budget"` // own steps allowed per operation
}

const (
	ready = iota
	blocked
	abandoned
	done
)

type waiter interface{ free() bool }

type Thread struct {
	ID         int
	ch         chan struct{}
	state      int
	on         waiter
	op         int
	inOp       bool
	steps      uint64
	stop       uint64
	hot        uint32
	stallUntil int
	kill       bool
	pre        []Preempt
	total      uint64
	quiet      int
	qsteps     uint64
	qstop      uint64
	qhot       uint32
	OverBudget bool
	OverSite   uint32
	Stuck      bool // still blocked (on a lock) when nothing else could run
	Abandoned  bool
	parent     *Thread // the thread whose go statement made this one
}

type Sim struct {
	cfg      Config
	rng      uint64
	threads  []*Thread
	opsDone  int
	mainCh   chan struct{}
	wg       sync.WaitGroup
	ending   bool
	Trace    []Preempt // preemptions that were carried out
	Hash     uint64
	Steps    uint64
	Switches int
	Stalls   int
	Abandons int
	HotPre   int
	Clock    int // jumps of the clock
	ColdPre  int
	OpPre    int
	seq      int64
}

const quietLimit = 60_000_000

// Solo runs f as a thread of its own with no other client thread running, in
// the present simulation or, if there is none, in a new one. It is for what
// happens before and after a run: setting up and looking at the outcome. ok is
// false if f did not end within many steps, or blocked for ever.
//
//go:norace
func Solo(f func()) (ok bool) {
	if cur != nil {
		f()
		return true
	}
	s := sim
	own := s == nil
	if own {
		s = &Sim{cfg: Config{Budget: never}, mainCh: make(chan struct{}, 1)}
		sim = s
	}
	done := false
	t := s.start(len(s.threads), func() { f(); done = true })
	t.quiet = 1
	t.stop = 1 << 30
	s.load(t)
	raceOff()
	t.ch <- struct{}{}
	<-s.mainCh
	raceOn()
	if own {
		s.End()
	}
	return done
}

var (
	steps uint64
	stop  uint64 = never
	hotP  uint32
	cur   *Thread
	sim   *Sim
)

//go:norace
func (s *Sim) rand() uint64 {
	s.rng += 0x9e3779b97f4a7c15
	z := s.rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func (s *Sim) mix(v uint64) {
	s.Hash ^= v
	s.Hash *= 0x100000001b3
	s.Hash ^= s.Hash >> 29
}

// Sites is how many sites coverage is kept for.
const Sites = 1 << 14

// Reached tells for every site whether it was passed (1), and whether a thread
// was preempted there (2), in any run of this process.
var Reached [Sites]uint8

// Y is a cold yield point (any statement).
//
//go:norace
func Y(site uint32) {
	Reached[site&(Sites-1)] |= 1
	steps++
	if steps >= stop {
		slow(site)
	}
}

// H is a hot yield point (near shared state, or in caller code).
//
//go:norace
func H(site uint32) {
	Reached[site&(Sites-1)] |= 1
	steps++
	if steps >= stop {
		slow(site)
		return
	}
	if hotP != 0 {
		if uint32(sim.rand()&0xffff) < hotP {
			sim.HotPre++
			sim.preempt(cur, site)
		}
	}
}

// P is a hot yield point just before p is dereferenced.
//
//go:norace
func P[T any](site uint32, p *T) *T {
	H(site)
	return p
}

//go:norace
func slow(site uint32) {
	t := cur
	if t == nil {
		stop = never
		return
	}
	if sim.ending {
		// the run is over: unwind through whatever the thread was doing
		stop = never
		runtime.Goexit()
	}
	if t.quiet > 0 {
		// an observation that never ends: somebody spins
		t.OverBudget = true
		t.OverSite = site
		stop, hotP = never, 0
		runtime.Goexit()
	}
	if steps >= sim.cfg.Budget {
		t.OverBudget = true
		t.OverSite = site
		stop, hotP = never, 0
		runtime.Goexit()
	}
	if sim.cfg.Replay {
		for len(t.pre) > 0 && t.pre[0].Step <= steps {
			p := t.pre[0]
			t.pre = t.pre[1:]
			if p.To >= 0 && p.To < len(sim.threads) && p.To != t.ID && sim.runnable(sim.threads[p.To]) {
				sim.take(t, p)
			}
		}
		sim.setStop(t)
		return
	}
	sim.ColdPre++
	sim.preempt(t, site)
	sim.setStop(t)
}

// setStop computes the next own-step count at which the running thread has to
// enter slow().
//
//go:norace
func (s *Sim) setStop(t *Thread) {
	if s.ending {
		stop = never
		return
	}
	n := s.cfg.Budget
	if s.cfg.Replay {
		if len(t.pre) > 0 && t.pre[0].Step < n {
			n = t.pre[0].Step
		}
	} else if s.cfg.ColdMean > 0 {
		d := 1 + s.rand()%(2*s.cfg.ColdMean)
		if steps+d < n {
			n = steps + d
		}
	}
	stop = n
}

//go:norace
func (s *Sim) runnable(t *Thread) bool {
	switch t.state {
	case ready:
		return t.stallUntil <= s.opsDone
	case blocked:
		return t.stallUntil <= s.opsDone && t.on.free()
	}
	return false
}

//go:norace
func (s *Sim) preempt(t *Thread, site uint32) {
	if t == nil || t.quiet > 0 || len(s.Trace) >= s.cfg.MaxPre {
		return
	}
	n := 0
	for _, o := range s.threads {
		if o != t && s.runnable(o) {
			n++
		}
	}
	if n == 0 {
		return
	}
	Reached[site&(Sites-1)] |= 2
	k := int(s.rand() % uint64(n))
	to := -1
	for _, o := range s.threads {
		if o != t && s.runnable(o) {
			if k == 0 {
				to = o.ID
				break
			}
			k--
		}
	}
	p := Preempt{Op: t.op, Step: steps, To: to, Site: site}
	if t.inOp {
		r := uint32(s.rand() & 0xffff)
		if r < s.cfg.AbandonP {
			p.Stall = -1
		} else if r < s.cfg.AbandonP+s.cfg.StallP {
			p.Stall = 1 + int(s.rand()%6)
			if n := len(s.cfg.StallLen); n > 0 {
				p.Stall = s.cfg.StallLen[s.rand()%uint64(n)]
			}
		}
	}
	s.take(t, p)
}

// take carries out one preemption of the running thread.
//
//go:norace
func (s *Sim) take(t *Thread, p Preempt) {
	s.Trace = append(s.Trace, p)
	if p.Stall < 0 {
		t.state = abandoned
		t.Abandoned = true
		s.Abandons++
	} else if p.Stall > 0 {
		t.stallUntil = s.opsDone + p.Stall
		s.Stalls++
	}
	s.mix(uint64(t.ID)<<56 ^ uint64(p.To)<<48 ^ uint64(p.Site)<<16 ^ p.Step)
	s.switchTo(t, s.threads[p.To])
}

//go:norace
func (s *Sim) switchTo(t, to *Thread) {
	s.Switches++
	t.steps, t.stop, t.hot = steps, stop, hotP
	s.load(to)
	raceOff()
	to.ch <- struct{}{}
	<-t.ch
	raceOn()
	if t.kill {
		stop, hotP = never, 0
		runtime.Goexit()
	}
}

//go:norace
func (s *Sim) load(to *Thread) {
	to.state = ready
	to.on = nil
	cur = to
	steps, stop, hotP = to.steps, to.stop, to.hot
}

// next picks the thread to run when the running one cannot go on. The choice
// is a fixed rule (cyclic), so replay needs no record of it.
//
//go:norace
func (s *Sim) next(t *Thread) *Thread {
	n := len(s.threads)
	if t.quiet > 0 {
		// an observation in several threads keeps to itself while it can
		for i := 1; i <= n; i++ {
			o := s.threads[(t.ID+i)%n]
			if o.quiet > 0 && s.runnable(o) {
				return o
			}
		}
	}
	for i := 1; i <= n; i++ {
		o := s.threads[(t.ID+i)%n]
		if s.runnable(o) {
			return o
		}
	}
	// nobody is runnable: end the shortest suspension, if any
	var best *Thread
	for _, o := range s.threads {
		if o.state == ready && (best == nil || o.stallUntil < best.stallUntil) {
			best = o
		}
	}
	if best == nil {
		for _, o := range s.threads {
			if o.state == blocked && o.stallUntil > s.opsDone && o.on.free() {
				best = o
				break
			}
		}
	}
	if best != nil {
		best.stallUntil = 0
	}
	return best
}

// block suspends the running thread until w is free.
//
//go:norace
func (s *Sim) block(t *Thread, w waiter) {
	if s.ending {
		runtime.Goexit()
	}
	t.state, t.on = blocked, w
	to := s.next(t)
	if to == t {
		t.state, t.on = ready, nil
		return
	}
	if to == nil {
		// deadlock: everybody is blocked or suspended for ever
		s.giveMain(t)
		return
	}
	s.switchTo(t, to)
}

//go:norace
func (s *Sim) giveMain(t *Thread) {
	t.steps, t.stop, t.hot = steps, stop, hotP
	cur = nil
	stop, hotP = never, 0
	raceOff()
	s.mainCh <- struct{}{}
	<-t.ch
	raceOn()
	if t.kill {
		stop, hotP = never, 0
		runtime.Goexit()
	}
}

//go:norace
func (s *Sim) finish(t *Thread) {
	t.state = done
	s.wg.Done() // a real synchronisation edge to the main goroutine only
	if !s.ending {
		if to := s.next(t); to != nil {
			s.load(to)
			raceOff()
			to.ch <- struct{}{}
			raceOn()
			return
		}
	}
	cur = nil
	stop, hotP = never, 0
	raceOff()
	s.mainCh <- struct{}{}
	raceOn()
}

//go:norace
func (s *Sim) start(id int, body func()) *Thread {
	t := &Thread{ID: id, ch: make(chan struct{}, 1), stop: never, op: -1}
	s.threads = append(s.threads, t)
	s.wg.Add(1)
	go s.trampoline(t, body)
	return t
}

//go:norace
func (s *Sim) trampoline(t *Thread, body func()) {
	defer s.finish(t)
	defer s.swallow()
	raceOff()
	<-t.ch
	raceOn()
	if t.kill {
		return
	}
	body()
}

// swallow recovers panics of deferred library code that a killed thread runs
// while it is unwound.
//
//go:norace
func (s *Sim) swallow() {
	if s.ending {
		recover()
	}
}

// Swallow is to be deferred by goroutines that do a simulated thread's work.
//
//go:norace
func Swallow() {
	if s := sim; s != nil && s.ending {
		recover()
	}
}

// Run executes the bodies as simulated threads until all have finished or none
// can go on.
//
//go:norace
func Run(cfg Config, bodies []func()) *Sim {
	s := &Sim{cfg: cfg, rng: cfg.Seed ^ 0x5bd1e995, mainCh: make(chan struct{}, 1), Hash: 0xcbf29ce484222325}
	if s.cfg.Budget == 0 {
		s.cfg.Budget = 1 << 22
	}
	if s.cfg.MaxPre == 0 {
		s.cfg.MaxPre = 400
	}
	sim = s
	for i, b := range bodies {
		s.start(i, b)
	}
	if len(s.threads) > 0 {
		s.load(s.threads[0])
		raceOff()
		s.threads[0].ch <- struct{}{}
		<-s.mainCh
		raceOn()
	}
	for _, t := range s.threads {
		if t.state == blocked {
			t.Stuck = true
		}
	}
	return s
}

// End unwinds threads that were suspended for ever or are deadlocked. Their
// effects, if any, happen after everything the caller has already checked.
//
//go:norace
func (s *Sim) End() {
	s.ending = true
	for i := 0; i < len(s.threads); i++ {
		t := s.threads[i]
		if t.state != done {
			t.kill = true
			cur = t
			stop, hotP = never, 0
			raceOff()
			t.ch <- struct{}{}
			<-s.mainCh
			raceOn()
		}
	}
	cur = nil
	sim = nil
	stop, hotP = never, 0
	s.wg.Wait()
}

//go:norace
func (s *Sim) Threads() []*Thread { return s.threads }

// ID is the id of the running simulated thread, or of the client thread that
// it works for, or -1.
//
//go:norace
func ID() int {
	t := cur
	if t == nil {
		return -1
	}
	for t.parent != nil {
		t = t.parent
	}
	return t.ID
}

// Self is the running simulated thread.
//
//go:norace
func Self() *Thread { return cur }

// Helper tells whether the running code is on a goroutine that the library started.
//
//go:norace
func Helper() bool { return cur != nil && cur.parent != nil }

// Root is the client thread that t works for, t itself if it is one.
//
//go:norace
func (t *Thread) Root() *Thread {
	for t.parent != nil {
		t = t.parent
	}
	return t
}

// Seq returns the next global event number.
//
//go:norace
func Seq() int64 {
	if sim == nil {
		return 0
	}
	sim.seq++
	return sim.seq
}

// OpBegin announces operation op of the running thread. Another thread may run
// before it starts.
//
//go:norace
func OpBegin(op int) {
	t := cur
	if t == nil {
		return
	}
	s := sim
	t.op = op
	s.tick(op)
	t.inOp = false
	steps = 0
	hotP = 0
	stop = never
	if s.cfg.Replay {
		t.pre = nil
		for _, p := range s.cfg.Pre {
			if p.Op == op {
				t.pre = append(t.pre, p)
			}
		}
		for len(t.pre) > 0 && t.pre[0].Step == 0 {
			p := t.pre[0]
			t.pre = t.pre[1:]
			if p.To >= 0 && p.To < len(s.threads) && p.To != t.ID && s.runnable(s.threads[p.To]) {
				s.take(t, p)
			}
		}
	} else if s.cfg.OpP != 0 && uint32(s.rand()&0xffff) < s.cfg.OpP {
		s.OpPre++
		s.preempt(t, 0)
	}
	t.inOp = true
	steps = 0
	if !s.cfg.Replay && (s.cfg.Victim == 0 || s.cfg.Victim == t.ID+1) {
		hotP = s.cfg.HotP
	}
	s.setStop(t)
}

// OpEnd announces the end of the running thread's operation and returns the
// number of own steps it took. h is mixed into the run's event hash.
//
//go:norace
func OpEnd(h uint64) uint64 {
	t := cur
	if t == nil {
		return 0
	}
	n := steps
	stop, hotP = never, 0
	t.inOp = false
	sim.opsDone++
	sim.Steps += n
	t.total += n
	sim.mix(h ^ n<<32 ^ uint64(t.ID))
	return n
}

// Quiet switches yielding off (the harness is looking at state); Loud switches
// it on again.
//
//go:norace
func Quiet() {
	t := cur
	if t == nil {
		return
	}
	if t.quiet == 0 {
		t.qsteps, t.qstop, t.qhot = steps, stop, hotP
		stop, hotP = steps+quietLimit, 0
	}
	t.quiet++
}

//go:norace
func Loud() {
	t := cur
	if t == nil {
		return
	}
	t.quiet--
	if t.quiet == 0 {
		steps, stop, hotP = t.qsteps, t.qstop, t.qhot
	}
}

// Steps is the running thread's own-step count in its current operation.
//
//go:norace
func Steps() uint64 { return steps }

// Measure counts the yield points passed by f outside of any simulation.
//
//go:norace
func Measure(f func()) uint64 {
	a := steps
	f()
	return steps - a
}

// OthersStepped tells how many context switches have happened so far.
//
//go:norace
func SwitchCount() int {
	if sim == nil {
		return 0
	}
	return sim.Switches
}

// Go replaces the go statement in instrumented code.
//
//go:norace
func Go(f func()) {
	if sim == nil || cur == nil || sim.ending {
		go f()
		return
	}
	t := sim.start(len(sim.threads), f)
	t.parent = cur
	t.op = 1<<28 | t.ID
	t.inOp = true
	t.stop = sim.cfg.Budget
	if cur.quiet > 0 {
		t.quiet = 1
		t.stop = quietLimit
		return
	}
	if sim.cfg.Replay {
		for _, p := range sim.cfg.Pre {
			if p.Op == t.op {
				t.pre = append(t.pre, p)
			}
		}
		if len(t.pre) > 0 && t.pre[0].Step < t.stop {
			t.stop = t.pre[0].Step
		}
	} else {
		t.hot = sim.cfg.HotP
	}
	H(0)
}

// Ending tells whether the run is over and threads are being unwound.
//
//go:norace
func Ending() bool { return sim != nil && sim.ending }

// Gosched replaces runtime.Gosched: any other thread may go on.
//
//go:norace
func Gosched() {
	H(0)
	if t := cur; t != nil && !sim.cfg.Replay && !sim.ending && t.quiet == 0 && t.inOp {
		steps++
		sim.HotPre++
		sim.preempt(t, 0)
		return
	}
	steps++
	if steps >= stop {
		slow(0)
	}
}

// clock is the simulated time, in nanoseconds since an arbitrary instant. It
// goes on with the steps taken and with every reading, and jumps between
// operations.
var clock int64

//go:norace
func (s *Sim) tick(op int) {
	h := (s.cfg.Clock ^ uint64(op)*0x9e3779b97f4a7c15) * 0xbf58476d1ce4e5b9
	h ^= h >> 31
	if h&7 != 0 {
		return
	}
	d := int64(1000) // a microsecond to three hours
	for n := h >> 3 & 7; n > 0; n-- {
		d *= 10
	}
	clock += d
	s.Clock++
}

// Now replaces time.Now.
//
//go:norace
func Now() time.Time {
	clock += 100
	n := clock
	if sim != nil {
		n += int64(sim.Steps+steps) * 10
	}
	return time.Unix(1700000000, n)
}

// Since replaces time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until replaces time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep replaces time.Sleep.
//
//go:norace
func Sleep(d time.Duration) {
	if d > 0 {
		clock += int64(d)
	}
	Gosched()
}

var resets []func()

// OnReset registers a function that gives package-level variables their
// initial values.
func OnReset(f func()) { resets = append(resets, f) }

// Reset restores the initial state of the instrumented packages, so that every
// run starts from the same state.
func Reset() {
	chanReset()
	clock = 0
	for _, f := range resets {
		f()
	}
}

// Zero gives a variable its zero value.
func Zero[T any](p *T) {
	var x T
	*p = x
}

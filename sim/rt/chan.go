package rt

import (
	"reflect"
	"sync"
)

// Channels of instrumented code: the channel value only identifies a simulated
// queue. A real mutex per queue gives the race oracle its edges.

type chanState struct {
	mu     sync.Mutex
	p      uintptr
	ch     any // keeps the channel alive, and so its address unique
	cap    int
	buf    []any
	closed bool
	sends  []*sendItem // waiting senders
	recvs  int         // threads waiting to receive
}

type sendItem struct {
	v     any
	taken bool
	sel   *selWait
}

// selWait is a waiting select; it takes part in at most one transfer.
type selWait struct {
	fired bool
}

var (
	chans []*chanState
)

//go:norace
func chanReset() { chans = nil }

//go:norace
func stateOf(ch any) *chanState {
	v := reflect.ValueOf(ch)
	if v.IsNil() {
		return nil
	}
	p := v.Pointer()
	for i := len(chans) - 1; i >= 0; i-- {
		if chans[i].p == p {
			return chans[i]
		}
	}
	c := &chanState{p: p, ch: ch, cap: v.Cap()}
	chans = append(chans, c)
	return c
}

// block lets others run until w is free.
//
//go:norace
func blockOn(w waiter) {
	for !w.free() {
		if sim == nil || cur == nil {
			panic("verifsim: waiting for a channel for ever")
		}
		sim.block(cur, w)
	}
}

type nilWait struct{}

func (nilWait) free() bool { return false }

type recvWait struct{ c *chanState }

//go:norace
func (w recvWait) free() bool { return w.c.canRecv() }

type sendWait struct {
	c *chanState
	i *sendItem
}

//go:norace
func (w sendWait) free() bool { return w.i.taken || w.c.closed }

//go:norace
func (c *chanState) edge() {
	c.mu.Lock()
	c.mu.Unlock()
}

//go:norace
func (c *chanState) canRecv() bool {
	if len(c.buf) > 0 || c.closed {
		return true
	}
	for _, i := range c.sends {
		if i.sel == nil || !i.sel.fired {
			return true
		}
	}
	return false
}

//go:norace
func (c *chanState) canSend() bool {
	return c.closed || len(c.buf) < c.cap
}

// takeRecv receives when canRecv.
//
//go:norace
func (c *chanState) takeRecv() (v any, ok bool) {
	c.edge()
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = c.buf[1:]
		c.fill()
		return v, true
	}
	for len(c.sends) > 0 {
		i := c.sends[0]
		c.sends = c.sends[1:]
		if i.sel != nil {
			if i.sel.fired {
				continue
			}
			i.sel.fired = true
		}
		i.taken = true
		return i.v, true
	}
	return nil, false
}

// fill moves waiting senders' values into the buffer.
//
//go:norace
func (c *chanState) fill() {
	for len(c.sends) > 0 && len(c.buf) < c.cap {
		i := c.sends[0]
		c.sends = c.sends[1:]
		if i.sel != nil {
			if i.sel.fired {
				continue
			}
			i.sel.fired = true
		}
		i.taken = true
		c.buf = append(c.buf, i.v)
	}
}

//go:norace
func send(ch any, v any) {
	H(0)
	c := stateOf(ch)
	if c == nil {
		blockOn(nilWait{})
	}
	c.edge()
	if c.closed {
		panic("send on closed channel")
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		H(0)
		return
	}
	i := &sendItem{v: v}
	c.sends = append(c.sends, i)
	blockOn(sendWait{c, i})
	c.edge()
	if !i.taken {
		panic("send on closed channel")
	}
}

//go:norace
func recv(ch any) (any, bool) {
	H(0)
	c := stateOf(ch)
	if c == nil {
		blockOn(nilWait{})
	}
	c.recvs++
	blockOn(recvWait{c})
	c.recvs--
	v, ok := c.takeRecv()
	H(0)
	return v, ok
}

// ToChan is the sending end of a channel, FromChan the receiving end.
type ToChan[T any] struct{ c chan<- T }
type FromChan[T any] struct{ c <-chan T }

func To[T any](c chan<- T) ToChan[T]     { return ToChan[T]{c} }
func From[T any](c <-chan T) FromChan[T] { return FromChan[T]{c} }

func (t ToChan[T]) Send(v T) { send(t.c, v) }

func conv[T any](v any) (x T) {
	if v != nil {
		x = v.(T)
	}
	return x
}

func (f FromChan[T]) Recv() T {
	v, _ := recv(f.c)
	return conv[T](v)
}

func (f FromChan[T]) Recv2() (T, bool) {
	v, ok := recv(f.c)
	return conv[T](v), ok
}

//go:norace
func CloseChan(ch any) {
	H(0)
	c := stateOf(ch)
	if c == nil {
		panic("close of nil channel")
	}
	c.edge()
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	H(0)
}

//go:norace
func ChanLen(ch any) int {
	H(0)
	c := stateOf(ch)
	if c == nil {
		return 0
	}
	c.edge()
	return len(c.buf)
}

// Case is one case of a select statement.
type Case struct {
	ch   any
	v    any
	send bool
}

func (t ToChan[T]) Case(v T) Case { return Case{ch: t.c, v: v, send: true} }
func (f FromChan[T]) Case() Case  { return Case{ch: f.c} }

var selV any
var selOK bool

// Got returns what the select statement just received.
func (f FromChan[T]) Got() T          { return conv[T](selV) }
func (f FromChan[T]) Got2() (T, bool) { return conv[T](selV), selOK }

type selState struct {
	w     *selWait
	cases []Case
	cs    []*chanState
}

// first is the first case that can go on without waiting.
//
//go:norace
func (x *selState) first() int {
	for i, k := range x.cases {
		c := x.cs[i]
		switch {
		case c == nil:
		case k.send:
			if c.canSend() || c.cap == 0 && c.recvs > 0 && len(c.sends) == 0 {
				return i
			}
		case c.canRecv():
			return i
		}
	}
	return -1
}

//go:norace
func (x *selState) free() bool {
	if x.w.fired {
		return true
	}
	for i, k := range x.cases {
		c := x.cs[i]
		if c != nil && (k.send && c.closed || !k.send && c.canRecv()) {
			return true
		}
	}
	return false
}

// Select carries out a select statement and returns the index of the chosen
// case, or -1 for the default.
//
//go:norace
func Select(def bool, cases ...Case) int {
	H(0)
	x := &selState{w: &selWait{}, cases: cases, cs: make([]*chanState, len(cases))}
	cs, w := x.cs, x.w
	for i, k := range cases {
		cs[i] = stateOf(k.ch)
	}
	if i := x.first(); i >= 0 || def {
		if i >= 0 {
			selDo(cases, cs, i)
		}
		return i
	}
	// wait: offers of sends stay queued, receives are polled
	var offers []*sendItem
	var idx []int
	for i, k := range cases {
		if k.send && cs[i] != nil {
			it := &sendItem{v: k.v, sel: w}
			cs[i].edge()
			cs[i].sends = append(cs[i].sends, it)
			offers = append(offers, it)
			idx = append(idx, i)
		} else if cs[i] != nil {
			cs[i].recvs++
		}
	}
	blockOn(x)
	for i, k := range cases {
		if !k.send && cs[i] != nil {
			cs[i].recvs--
		}
	}
	if w.fired {
		for j, it := range offers {
			if it.taken {
				cs[idx[j]].edge()
				return idx[j]
			}
		}
	}
	w.fired = true // withdraw the offers
	for i, k := range cases {
		if cs[i] == nil {
			continue
		}
		if k.send && cs[i].closed {
			panic("send on closed channel")
		}
		if !k.send && cs[i].canRecv() {
			selDo(cases, cs, i)
			return i
		}
	}
	panic("verifsim: select")
}

//go:norace
func selDo(cases []Case, cs []*chanState, i int) {
	c := cs[i]
	if !cases[i].send {
		selV, selOK = c.takeRecv()
		return
	}
	c.edge()
	if c.closed {
		panic("send on closed channel")
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, cases[i].v)
		return
	}
	// a receiver is waiting: it takes the value when it runs
	c.sends = append(c.sends, &sendItem{v: cases[i].v})
}

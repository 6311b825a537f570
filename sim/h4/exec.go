package h4

import (
	"fmt"
	"net"
	"runtime"
	"strings"
	"sync/atomic"
	"weak"

	fam "gopkg.in/addrs.v1/ipv4"

	"verifsim/md"
	"verifsim/rt"
	"verifsim/sc"
)

// hobj is a mutable object with several copies of its handle.
type hobj struct {
	id    int
	isSet bool
	t     []tH
	s     []fam.Set_
	mu    rt.Mutex // outside lock, where clients use one
	// frame bookkeeping (not in race builds)
	last   sc.Content
	writes int
	dirty  bool
}

// slot is an immutable object.
type slot struct {
	id    int
	isSet bool
	t     tS
	s     fam.Set
	x     sc.Content
	rec   *sc.Rec
	bad   bool
}

type born struct {
	id int
	b  sc.Born
}

// thr is the state of one client thread.
type thr struct {
	id    int
	recs  []*sc.Rec
	ctx   *octx
	born  []born
	slots []*slot
	kept  []*kept // in the race build
	extra []sc.Violation
	buf   [2][]byte // for the arguments of functions of values
	ipn   net.IPNet
}

type octx struct {
	op     *sc.Op
	rec    *sc.Rec
	n      int
	fired  bool
	off    bool
	helper bool // caller code was called on another goroutine
	parent *octx
}

type run struct {
	s      *sc.Script
	h      []atomic.Pointer[hobj]
	sl     []atomic.Pointer[slot]
	th     []*thr
	tags   []md.P // cost mode: tag -> prefix
	mapped []md.P // cost mode: entries given another value by Map
	// cost mode: prefixes written since the start, by handle
	frameBusy bool
	vals      []weak.Pointer[int] // values passed to the library (Hist)
	kept      []*kept
}

type sentinel struct{ op, n int }

func (r *run) me() *thr {
	id := rt.ID()
	if id < 0 || id >= len(r.th)-1 {
		return r.th[len(r.th)-1]
	}
	return r.th[id]
}

func (t *thr) bad(prop, class string, op *sc.Op, key, f string, a ...any) {
	if len(t.extra) > 20 {
		return
	}
	id := -1
	if op != nil {
		id = op.ID
	}
	t.extra = append(t.extra, sc.Violation{Prop: prop, Class: class, Op: id, Key: key, Msg: fmt.Sprintf(f, a...)})
}

// hook runs whenever caller code is invoked by the library.
func (r *run) hook() {
	t := r.me()
	c := t.ctx
	if c == nil || c.off {
		return
	}
	r.where(t, c)
	rt.H(0)
	c.n++
	f := c.op.Fault
	if f == nil || c.fired || c.n != f.N {
		return
	}
	c.fired = true
	c.rec.Hit = true
	c.rec.AtFault = r.seeTarget(c.op)
	c.rec.AtSw = rt.SwitchCount()
	switch f.Kind {
	case "panic":
		panic(&sentinel{c.op.ID, c.n})
	case "goexit":
		runtime.Goexit()
	case "reenter":
		r.list(t, f.Sub, c.rec)
	}
}

// where checks that caller code runs on the goroutine of its caller.
func (r *run) where(t *thr, c *octx) {
	if rt.Helper() && !c.helper {
		c.helper = true
		t.bad("C27", "goroutine", c.op, "goroutine "+c.op.K, "%s calls caller code on a goroutine of its own", c.op.K)
	}
}

// late checks that a callback is called before the end of its operation.
func (r *run) late(rec *sc.Rec) {
	if rec.Ret != 0 {
		r.me().bad("C27", "late", rec.Op, "late "+rec.Op.K, "%s calls its callback after it has returned", rec.Op.K)
	}
}

func (r *run) hookCmp(a, atag, b, btag int) {
	t := r.me()
	c := t.ctx
	if c == nil || c.off {
		return
	}
	r.where(t, c)
	c.rec.Cmp++
	if r.s.Cost && c.op.K == sc.IDiff && len(c.rec.CmpBad) < 3 {
		r.costCheck(t, c, atag, btag)
	}
	if r.s.Iso {
		rt.H(0)
		return
	}
	r.hook()
}

func (r *run) notStored() {
	t := r.me()
	if c := t.ctx; c != nil {
		t.bad(sc.PropOf(c.op.K), "phantom-value", c.op, "phantom "+c.op.K, "%s passed a value that was never stored to the comparator", c.op.K)
	}
}

// quietly runs f with scheduling and caller-code hooks off.
func (r *run) quietly(t *thr, f func()) {
	rt.Quiet()
	c := t.ctx
	var was bool
	if c != nil {
		was = c.off
		c.off = true
	}
	defer func() {
		if c != nil {
			c.off = was
		}
		rt.Loud()
	}()
	f()
}

type userPrefix struct {
	r *run
	p fam.Prefix
}

func (u userPrefix) Prefix() fam.Prefix { u.r.hook(); return u.p }

type userSet struct {
	r *run
	s fam.SetI
	x *sc.ArgX
	h bool
}

func (u userSet) Set() fam.Set {
	u.r.hook()
	s := u.s.Set()
	if u.h && u.x != nil {
		t := u.r.me()
		var c sc.Content
		u.r.quietly(t, func() { c = obsS(s) })
		u.x.X, u.x.HasX = c.S, true
	}
	return s
}

func (r *run) prefixArg(op *sc.Op) fam.PrefixI {
	switch op.PF {
	case "nil":
		return nil
	case "addr":
		return mkAddr(op.P.A)
	case "wrap":
		return userPrefix{r, mkPrefix(op.P)}
	}
	return mkPrefix(op.P)
}

// setArg makes a set argument; ok is false if it refers to something missing.
func (r *run) setArg(t *thr, a *sc.Arg) (s fam.SetI, x *sc.ArgX, ok bool) {
	if a == nil {
		return nil, &sc.ArgX{H: -1, HasX: true}, true
	}
	x = &sc.ArgX{H: -1, HasX: true}
	switch a.Form {
	case "nil":
		return nil, x, true
	case "addr":
		s, x.X = mkAddr(a.P.A), md.Set{{Lo: a.P.A, Hi: a.P.A}}
	case "pfx":
		s, x.X = mkPrefix(a.P), md.FromP(a.P, W)
	case "rng":
		s, x.X = mkRange(a.P.A, a.Hi), md.Set{{Lo: a.P.A, Hi: a.Hi}}
	case "slot":
		sl := r.slot(a.S, true)
		if sl == nil {
			return nil, nil, false
		}
		s, x.X = sl.s, sl.x.S
	case "zero":
		s = fam.Set_{}
	case "zeroset":
		s = fam.Set{}
	case "handle":
		h := r.handle(a.H, true)
		if h == nil {
			return nil, nil, false
		}
		hs := h.s[a.S%len(h.s)]
		s = hs
		x.H = a.H
		if a.Wrap {
			x.HasX = false
		} else {
			var c sc.Content
			r.quietly(t, func() { c = obsS(hs.Set()) })
			x.X = c.S
		}
	default:
		return nil, nil, false
	}
	if a.Wrap {
		s = userSet{r, s, x, a.Form == "handle"}
	}
	return s, x, true
}

func (r *run) slot(id int, isSet bool) *slot {
	if id < 0 || id >= len(r.sl) {
		return nil
	}
	s := r.sl[id].Load()
	if s == nil || s.isSet != isSet {
		return nil
	}
	return s
}

func (r *run) handle(id int, isSet bool) *hobj {
	if id < 0 || id >= len(r.h) {
		return nil
	}
	h := r.h[id].Load()
	if h == nil || h.isSet != isSet {
		return nil
	}
	return h
}

const obsMax = 200000

func obsT(s tS) (c sc.Content) {
	defer func() {
		if e := recover(); e != nil {
			c.Err = fmt.Sprintf("walk panicked: %v", e)
		}
	}()
	tags := s.WalkTag(func(p fam.Prefix, v, tag int) bool {
		q, _ := unPrefix(p)
		c.T = append(c.T, md.E{P: q, V: v})
		c.G = append(c.G, tag)
		c.Bits = append(c.Bits, unAddr(p.Address()))
		return len(c.T) < obsMax
	})
	if !tags {
		c.G = nil
	}
	for i := 1; i < len(c.T); i++ {
		if !c.T[i-1].P.Less(c.T[i].P) {
			c.Err = fmt.Sprintf("walk out of order: %v then %v", c.T[i-1].P, c.T[i].P)
			break
		}
	}
	return c
}

func obsS(s fam.Set) (c sc.Content) {
	c.IsSet = true
	defer func() {
		if e := recover(); e != nil {
			c.Err = fmt.Sprintf("walk panicked: %v", e)
		}
	}()
	var iv []md.Iv
	s.WalkPrefixes(func(p fam.Prefix) bool {
		q, _ := unPrefix(p)
		raw := md.P{A: unAddr(p.Address()), L: p.Length()}
		c.Raw = append(c.Raw, raw)
		iv = append(iv, md.Iv{Lo: q.First(W), Hi: q.Last(W)})
		return len(c.Raw) < obsMax
	})
	c.S = md.Mk(iv)
	return c
}

func (h *hobj) see(copy int) sc.Content {
	if h.isSet {
		return obsS(h.s[copy%len(h.s)].Set())
	}
	return obsT(h.t[copy%len(h.t)].Snap())
}

// seeTarget observes the mutable object an operation writes or builds.
func (r *run) seeTarget(op *sc.Op) *sc.Content {
	if rt.RaceBuild || !sc.IsWrite(op.K) {
		return nil
	}
	h := r.h[op.H].Load()
	if h == nil {
		return nil
	}
	var c sc.Content
	r.quietly(r.me(), func() { c = h.see(0) })
	return &c
}

func (r *run) putT(t *thr, id int, s tS, rec *sc.Rec) {
	sl := &slot{id: id, t: s, rec: rec}
	r.quietly(t, func() { sl.x = obsT(s) })
	r.put(t, sl)
}

func (r *run) putS(t *thr, id int, s fam.Set, rec *sc.Rec) {
	sl := &slot{id: id, isSet: true, s: s, rec: rec}
	r.quietly(t, func() { sl.x = obsS(s) })
	r.put(t, sl)
}

func (r *run) put(t *thr, sl *slot) {
	sl.rec.X = &sl.x
	t.slots = append(t.slots, sl)
	if sl.id >= 0 && sl.id < len(r.sl) {
		r.sl[sl.id].Store(sl)
	}
}

func (r *run) addHandle(t *thr, h *hobj, from sc.Content, rec *sc.Rec) {
	t.born = append(t.born, born{h.id, sc.Born{Rec: rec, X: from, At: rt.Seq()}})
	if !rt.RaceBuild && r.s.Frame {
		r.quietly(t, func() { h.last = h.see(0) })
	}
	r.h[h.id].Store(h)
}

func (r *run) copies(h *hobj, t tH, s fam.Set_) {
	n := r.s.Copies
	if n < 1 {
		n = 1
	}
	for i := 0; i < n; i++ {
		if h.isSet {
			h.s = append(h.s, s)
		} else {
			h.t = append(h.t, t)
		}
	}
}

// list runs nested operations.
func (r *run) list(t *thr, ops []*sc.Op, parent *sc.Rec) {
	for _, op := range ops {
		r.exec(t, op, parent)
	}
}

// top runs an operation of the client's own script.
func (r *run) top(t *thr, op *sc.Op) {
	tries := 1 + op.Retry
	for i := 0; i < tries; i++ {
		rt.OpBegin(op.ID | i<<20)
		var lk *hobj
		if op.Lock {
			if lk = r.h[op.H].Load(); lk != nil {
				lk.mu.Lock()
			}
		}
		var rec *sc.Rec
		if op.Fault != nil && op.Fault.Kind == "goexit" {
			done := make(chan struct{})
			go func() {
				defer close(done)
				defer rt.Swallow()
				r.execInto(t, op, nil, &rec)
			}()
			<-done
			if rt.Ending() {
				runtime.Goexit()
			}
		} else {
			r.execInto(t, op, nil, &rec)
		}
		if lk != nil {
			lk.mu.Unlock()
		}
		if r.s.Frame && !rt.RaceBuild {
			r.frame(t, op, rec)
		}
		rec.Steps = rt.OpEnd(rec.Digest())
		if rec.St != sc.Conflict {
			break
		}
	}
}

func (r *run) exec(t *thr, op *sc.Op, parent *sc.Rec) {
	var rec *sc.Rec
	r.execInto(t, op, parent, &rec)
}

func (r *run) execInto(t *thr, op *sc.Op, parent *sc.Rec, out **sc.Rec) {
	rec := &sc.Rec{Op: op, Th: t.id, St: sc.Pending, Parent: parent}
	if parent != nil {
		rec.Depth = parent.Depth + 1
	}
	*out = rec
	t.recs = append(t.recs, rec)
	c := &octx{op: op, rec: rec, parent: t.ctx}
	write := sc.IsWrite(op.K)
	var h *hobj
	if write {
		if h = r.h[op.H].Load(); h != nil && !rt.RaceBuild {
			h.writes++
			h.dirty = true
			if op.Fault != nil || r.s.Prop == "C03" {
				rec.Before = r.seeTarget(op)
			}
		}
	}
	if r.s.Solo && parent == nil && !rt.RaceBuild {
		rec.Solo = r.solo(t, op)
		rec.Size = r.size(t, op)
	}
	var before *held
	if r.s.Grow && parent == nil && !rt.RaceBuild {
		before = r.growBefore(t, op, rec)
	}
	if r.s.Whole && parent == nil && !rt.RaceBuild && (op.K == sc.MUni || op.K == sc.MInt || op.K == sc.MDif || op.K == sc.MIns || op.K == sc.MRem || op.K == sc.MHas) {
		if h := r.handle(op.H, true); h != nil {
			r.quietly(t, func() { x := h.see(0); rec.Before = &x })
		}
	}
	t.ctx = c
	finished := false
	over := rt.Self()
	var wasOver bool
	if over != nil {
		wasOver = over.OverBudget
	}
	defer func() {
		if rt.Ending() {
			return
		}
		e := recover()
		rec.Ret = rt.Seq()
		rec.Sw1 = rt.SwitchCount()
		t.ctx = c.parent
		switch {
		case finished:
			if rec.St == sc.Pending {
				rec.St = sc.OK
			}
		case over != nil && over.OverBudget && !wasOver:
			rec.St = sc.Budget
			rec.Msg = fmt.Sprint(over.OverSite)
		case e == nil:
			rec.St = sc.Exited
		default:
			if s, ok := e.(*sentinel); ok {
				rec.St = sc.Faulted
				rec.Msg = fmt.Sprintf("%d/%d", s.op, s.n)
				if s.op != op.ID {
					rec.St = sc.Conflict
				}
			} else if re, ok := e.(runtime.Error); ok {
				rec.St = sc.Runtime
				rec.Msg = re.Error()
			} else {
				rec.St = sc.Conflict
				rec.Msg = fmt.Sprint(e)
			}
		}
		if before != nil {
			r.growAfter(t, op, rec, before)
		}
		if h != nil && !rt.RaceBuild {
			if rec.Hit || r.s.Prop == "C03" {
				rec.After = r.seeTarget(op)
			}
			h.writes--
		}
		if r.s.Solo && parent == nil && !rt.RaceBuild {
			if n := r.size(t, op); n > rec.Size {
				rec.Size = n
			}
		}
		if r.s.Solo && parent == nil && !write && !rt.RaceBuild {
			if n := r.solo(t, op); n > rec.Solo {
				rec.Solo = n
			}
		}
	}()
	rec.Sw0 = rt.SwitchCount()
	rec.Inv = rt.Seq()
	if r.s.Whole && parent == nil && !rt.RaceBuild && r.large(op) {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		n := m.TotalAlloc
		defer func() {
			runtime.ReadMemStats(&m)
			rec.Alloc = m.TotalAlloc - n
		}()
	}
	r.do(t, c, op, rec)
	finished = true
}

// large tells if the operation is on a large immutable object.
func (r *run) large(op *sc.Op) bool {
	if op.K[0] != 'i' && op.K[0] != 's' {
		return false
	}
	sl := r.slot(op.S, op.K[0] == 's')
	return sl != nil && len(sl.x.T)+len(sl.x.Raw) >= 100
}

// size counts the entries of the operation's target.
func (r *run) size(t *thr, op *sc.Op) (n int) {
	r.quietly(t, func() {
		switch op.K[0] {
		case 't':
			if h := r.handle(op.H, false); h != nil {
				n = int(h.t[0].Num())
			}
		case 'm':
			if h := r.handle(op.H, true); h != nil {
				h.s[0].Set().WalkPrefixes(func(fam.Prefix) bool { n++; return true })
			}
		}
	})
	return n
}

// solo measures the steps the operation takes alone, on a detached copy.
func (r *run) solo(t *thr, op *sc.Op) (n uint64) {
	defer func() {
		if recover() != nil {
			n = 0
		}
	}()
	r.quietly(t, func() {
		off := &octx{op: op, rec: &sc.Rec{}, off: true}
		save := t.ctx
		t.ctx = off
		defer func() { t.ctx = save }()
		switch op.K[0] {
		case 't':
			h := r.handle(op.H, false)
			if h == nil {
				return
			}
			x := h.t[0]
			if sc.IsWrite(op.K) {
				x = x.Snap().Clone()
			}
			p := r.prefixArg(op)
			n = rt.Measure(func() { r.tableOp(x, p, op, &sc.Rec{}) })
		case 'm':
			h := r.handle(op.H, true)
			if h == nil {
				return
			}
			x := h.s[0]
			if sc.IsWrite(op.K) {
				x = x.Set().Set_()
			}
			a, _, ok := r.setArg(t, op.Arg)
			if !ok || op.K == sc.MEq {
				return
			}
			n = rt.Measure(func() { r.setOp(t, x, a, op, &sc.Rec{}) })
		}
	})
	return n
}

func (r *run) tableOp(x tH, p fam.PrefixI, op *sc.Op, rec *sc.Rec) (s tS) {
	switch op.K {
	case sc.TIns:
		rec.OK = x.Ins(p, op.V, op.Tag)
	case sc.TUpd:
		rec.OK = x.Upd(p, op.V, op.Tag)
	case sc.TIou:
		x.Iou(p, op.V, op.Tag)
	case sc.TGoi:
		rec.V = x.Goi(p, op.V, op.Tag)
	case sc.TDel:
		rec.OK = x.Del(p)
	case sc.TGet:
		rec.V, rec.OK = x.Get(p)
	case sc.TLpm:
		var q fam.Prefix
		rec.V, rec.OK, q = x.Lpm(p)
		if rec.OK {
			rec.P, _ = unPrefix(q)
		}
	case sc.TNum:
		rec.N = x.Num()
	case sc.TSnap:
		s = x.Snap()
	}
	return s
}

func (r *run) setOp(t *thr, x fam.Set_, a fam.SetI, op *sc.Op, rec *sc.Rec) (s fam.Set) {
	switch op.K {
	case sc.MIns:
		x.Insert(a)
	case sc.MRem:
		x.Remove(a)
	case sc.MHas:
		rec.OK = x.Contains(a)
	case sc.MEmpty:
		rec.OK = x.IsEmpty()
	case sc.MCnt:
		rec.N = numAddrs_(x)
	case sc.MUni:
		s = x.Union(a)
	case sc.MInt:
		s = x.Intersection(a)
	case sc.MDif:
		s = x.Difference(a)
	case sc.MSnap:
		s = x.Set()
	}
	return s
}

func (r *run) do(t *thr, c *octx, op *sc.Op, rec *sc.Rec) {
	skip := func() { rec.St = sc.Skipped }
	switch op.K[0] {
	case 't':
		h := r.handle(op.H, false)
		if h == nil {
			skip()
			return
		}
		p := r.prefixArg(op)
		s := r.tableOp(h.t[op.A%len(h.t)], p, op, rec)
		if op.K == sc.TSnap {
			r.putT(t, op.D, s, rec)
		}
		return
	case 'm':
		h := r.handle(op.H, true)
		if h == nil {
			skip()
			return
		}
		x := h.s[op.A%len(h.s)]
		if op.K == sc.MEq {
			o := r.handle(op.S, true)
			if o == nil {
				skip()
				return
			}
			y := o.s[op.A%len(o.s)]
			var cc sc.Content
			r.quietly(t, func() { cc = obsS(y.Set()) })
			rec.Arg = &sc.ArgX{H: op.S, X: cc.S, HasX: true}
			rec.OK = x.Equal(y)
			return
		}
		a, ax, ok := r.setArg(t, op.Arg)
		if !ok {
			skip()
			return
		}
		rec.Arg = ax
		s := r.setOp(t, x, a, op, rec)
		switch op.K {
		case sc.MUni, sc.MInt, sc.MDif, sc.MSnap:
			r.putS(t, op.D, s, rec)
		}
		return
	case 'i':
		s := r.slot(op.S, false)
		if s == nil {
			skip()
			return
		}
		rec.SX = &s.x
		r.immTable(t, s, op, rec)
		return
	case 's':
		s := r.slot(op.S, true)
		if s == nil {
			skip()
			return
		}
		rec.SX = &s.x
		r.immSet(t, s, op, rec)
		return
	}
	switch op.K {
	case sc.OHas:
		// containment in an address, prefix or range
		a, ax, ok := r.setArg(t, op.Arg)
		if !ok {
			skip()
			return
		}
		rec.Arg = ax
		b, bx, _ := r.setArg(t, op.Arg2)
		rec.Arg2 = bx
		switch b := b.(type) {
		case fam.Prefix:
			rec.OK = b.Contains(a)
		case fam.Range:
			rec.OK = b.Contains(a)
		case fam.Address:
			rec.OK = b.Set().Contains(a)
		default:
			skip()
		}
	case sc.OFix:
		a, ax, ok := r.setArg(t, op.Arg)
		if !ok || a == nil {
			skip()
			return
		}
		rec.Arg = ax
		s := a.Set()
		r.putS(t, op.D, s, rec)
		if rg, ok := a.(fam.Range); ok {
			rec.N = rngNum(rg)
		} else {
			rec.N = -1
		}
	case sc.VCall, sc.VAgain:
		r.value(t, op, rec)
	case sc.OZeroT:
		r.zeroTable(t, op)
	case sc.OZeroS:
		r.zeroSet(t, op)
	default:
		skip()
	}
}

func (r *run) immTable(t *thr, s *slot, op *sc.Op, rec *sc.Rec) {
	stopAt := func() bool {
		r.late(rec)
		r.hook()
		return op.N < 0 || len(rec.Evs) < op.N
	}
	switch op.K {
	case sc.IGet:
		rec.V, rec.OK = s.t.Get(r.prefixArg(op))
	case sc.ILpm:
		var q fam.Prefix
		rec.V, rec.OK, q = s.t.Lpm(r.prefixArg(op))
		if rec.OK {
			rec.P, _ = unPrefix(q)
		}
	case sc.INum:
		rec.N = s.t.Num()
	case sc.IWalk:
		rec.OK = s.t.Walk(func(p fam.Prefix, v int) bool {
			q, _ := unPrefix(p)
			rec.Evs = append(rec.Evs, sc.Ev{P: q, V: v})
			return stopAt()
		})
	case sc.IDiff:
		o := r.slot(op.S2, false)
		if o == nil {
			rec.St = sc.Skipped
			return
		}
		rec.SX2 = &o.x
		one := func(c string, bit int) func(fam.Prefix, int) bool {
			if op.M&bit != 0 {
				return nil
			}
			return func(p fam.Prefix, v int) bool {
				q, _ := unPrefix(p)
				rec.Evs = append(rec.Evs, sc.Ev{C: c, P: q, V: v})
				return stopAt()
			}
		}
		ch := func(p fam.Prefix, l, rr int) bool {
			q, _ := unPrefix(p)
			rec.Evs = append(rec.Evs, sc.Ev{C: "changed", P: q, V: l, W: rr})
			return stopAt()
		}
		if op.M&1 != 0 {
			ch = nil
		}
		rec.OK = s.t.Diff(o.t, ch, one("left", 2), one("right", 4), one("same", 8))
	case sc.IAgg:
		n := s.t.Agg()
		r.putT(t, op.D, n, rec)
		if r.s.Use {
			r.use(t, op, n, rec)
		}
	case sc.IMap:
		var seen sc.Content
		n := s.t.Map(func(p fam.Prefix, v int) (int, int) {
			q, _ := unPrefix(p)
			w := sc.MapVal(op.M, q, v)
			seen.T = append(seen.T, md.E{P: q})
			seen.Bits = append(seen.Bits, unAddr(p.Address()))
			rec.Evs = append(rec.Evs, sc.Ev{P: q, V: v, W: w})
			r.late(rec)
			r.hook()
			if r.s.Cost {
				if w != v {
					r.mapped = append(r.mapped, q)
				}
				return w, r.tag(q)
			}
			return w, op.Tag
		})
		if !seen.SameBits(s.x) {
			t.bad("C08", "map-prefix", op, "map prefix", "op %d: the entries of the table are %v%s, but the mapper was called for others%s", op.ID, s.x, s.x.Tags(), seen.Tags())
		}
		r.putT(t, op.D, n, rec)
		if rec.X != nil && !rec.X.SameBits(s.x) {
			t.bad("C08", "map-prefix", op, "map prefix", "op %d: the mapped table %v%s does not have the prefixes of the original %v%s", op.ID, rec.X, rec.X.Tags(), s.x, s.x.Tags())
		}
		if r.s.Use {
			r.use(t, op, n, rec)
		}
	case sc.IBuild:
		calls := 0
		n := s.t.Build(func(x tH) bool {
			calls++
			r.late(rec)
			r.hook()
			h := &hobj{id: op.D2}
			r.copies(h, x, fam.Set_{})
			if calls == 1 {
				r.addHandle(t, h, s.x, rec)
			}
			r.list(t, op.Sub, rec)
			r.hook()
			r.quietly(t, func() { c := obsT(x.Snap()); rec.Build = &c })
			return op.M == 0
		})
		rec.N = int64(calls)
		r.putT(t, op.D, n, rec)
		if r.s.Use {
			r.use(t, op, n, rec)
		}
	case sc.IClone:
		h := &hobj{id: op.D}
		r.copies(h, r.relayT(s.t, op.M, op.P).Clone(), fam.Set_{})
		r.quietly(t, func() { c := h.see(0); rec.X = &c })
		r.addHandle(t, h, s.x, rec)
	}
}

func (r *run) immSet(t *thr, s *slot, op *sc.Op, rec *sc.Rec) {
	stopAt := func() bool {
		r.late(rec)
		r.hook()
		return op.N < 0 || len(rec.Evs) < op.N
	}
	var a fam.SetI
	if op.Arg != nil {
		var ok bool
		if a, rec.Arg, ok = r.setArg(t, op.Arg); !ok {
			rec.St = sc.Skipped
			return
		}
	}
	switch op.K {
	case sc.SHas:
		rec.OK = s.s.Contains(a)
	case sc.SEmpty:
		rec.OK = s.s.IsEmpty()
	case sc.SEq:
		o := r.slot(op.S2, true)
		if o == nil {
			rec.St = sc.Skipped
			return
		}
		rec.SX2 = &o.x
		rec.OK = s.s.Equal(o.s)
	case sc.SCnt:
		rec.N = numAddrs(s.s)
	case sc.SUni:
		r.putS(t, op.D, s.s.Union(a), rec)
	case sc.SInt:
		r.putS(t, op.D, s.s.Intersection(a), rec)
	case sc.SDif:
		r.putS(t, op.D, s.s.Difference(a), rec)
	case sc.SWalkP:
		rec.OK = s.s.WalkPrefixes(func(p fam.Prefix) bool {
			rec.Evs = append(rec.Evs, sc.Ev{P: md.P{A: unAddr(p.Address()), L: p.Length()}})
			return stopAt()
		})
	case sc.SWalkR:
		rec.OK = s.s.WalkRanges(func(q fam.Range) bool {
			rec.Evs = append(rec.Evs, sc.Ev{P: md.P{A: unAddr(q.First())}}, sc.Ev{P: md.P{A: unAddr(q.Last())}})
			r.late(rec)
			r.hook()
			return op.N < 0 || len(rec.Evs) < 2*op.N
		})
	case sc.SWalkA:
		if !V4 {
			rec.St = sc.Skipped
			return
		}
		lim := 3000
		rec.OK = walkAddrs(s.s, func(x md.A) bool {
			rec.Evs = append(rec.Evs, sc.Ev{P: md.P{A: x}})
			return stopAt() && len(rec.Evs) < lim
		})
	case sc.SStr:
		rec.Str = s.s.String()
		r.quietly(t, func() {
			for _, p := range s.x.Raw {
				rec.Notes = append(rec.Notes, mkPrefix(p).String())
			}
		})
	case sc.SNumP:
		n, err := s.s.NumPrefixes(uint32(op.N))
		rec.OK = err == nil
		rec.N = int64(n)
	case sc.SFind:
		p, err := s.s.FindAvailablePrefix(a, uint32(op.N))
		rec.OK = err == nil
		if rec.OK {
			rec.P, rec.Raw = unPrefix(p)
		}
	case sc.SBuild:
		calls := 0
		n := s.s.Build(func(x fam.Set_) bool {
			calls++
			r.late(rec)
			r.hook()
			h := &hobj{id: op.D2, isSet: true}
			r.copies(h, nil, x)
			if calls == 1 {
				r.addHandle(t, h, s.x, rec)
			}
			r.list(t, op.Sub, rec)
			r.hook()
			r.quietly(t, func() { c := obsS(x.Set()); rec.Build = &c })
			return op.M == 0
		})
		rec.N = int64(calls)
		r.putS(t, op.D, n, rec)
	case sc.SClone:
		h := &hobj{id: op.D, isSet: true}
		r.copies(h, nil, r.relayS(s.s, op.M).Set_())
		r.quietly(t, func() { c := h.see(0); rec.X = &c })
		r.addHandle(t, h, s.x, rec)
	}
}

// relayT changes a table into a mutable one and back n times, sometimes writing
// to it, but so that it has the same contents in the end.
func (r *run) relayT(t tS, n int, p md.P) tS {
	for i := 0; i < n; i++ {
		q := md.P{A: p.A, L: i % (W + 1)}
		if i%7 == n%7 {
			t = crowdT(t, p, uint64(n)<<32+uint64(i))
			continue
		}
		switch (i + n) % 5 {
		case 0, 1:
			t = t.Clone().Snap()
		case 2:
			h := t.Clone()
			if h.Ins(mkPrefix(q), 0, 0) {
				h.Del(mkPrefix(q))
			}
			t = h.Snap()
		case 3:
			t = t.Build(func(h tH) bool {
				if h.Ins(mkPrefix(q), 1, 0) {
					h.Del(mkPrefix(q))
				}
				return true
			})
		case 4:
			t = t.Build(func(h tH) bool {
				h.Iou(mkPrefix(q), 1, 0)
				return false
			})
		}
	}
	return t
}

// crowdT inserts a number of entries around p and removes them again.
func crowdT(t tS, p md.P, seed uint64) tS {
	g := sc.NewRng(seed)
	h := t.Clone()
	var in []md.P
	for n := 2 + g.N(24); n > 0; n-- {
		q := near(g, p)
		if h.Ins(mkPrefix(q), g.N(2), 0) {
			in = append(in, q)
		}
	}
	for len(in) > 0 {
		i := g.N(len(in))
		h.Del(mkPrefix(in[i]))
		in[i] = in[len(in)-1]
		in = in[:len(in)-1]
	}
	return h.Snap()
}

// crowdS does it to a set.
func crowdS(s fam.Set, seed uint64) fam.Set {
	g := sc.NewRng(seed)
	p := md.P{A: md.A{Hi: g.U(), Lo: g.U()}.And(md.Max(W)), L: W}
	s.WalkPrefixes(func(q fam.Prefix) bool {
		p, _ = unPrefix(q)
		return g.N(4) > 0
	})
	h := s.Set_()
	var in []md.P
	for n := 2 + g.N(24); n > 0; n-- {
		q := near(g, p)
		if h.Intersection(mkPrefix(q)).IsEmpty() {
			h.Insert(mkPrefix(q))
			in = append(in, q)
		}
	}
	for len(in) > 0 {
		i := g.N(len(in))
		h.Remove(mkPrefix(in[i]))
		in[i] = in[len(in)-1]
		in = in[:len(in)-1]
	}
	return h.Set()
}

// near is a prefix that shares some bits with p.
func near(g *sc.Rng, p md.P) md.P {
	k := g.N(W)
	q := md.P{A: p.A, L: g.Range(k, W)}
	a := q.A.Or(md.A{Hi: g.U(), Lo: g.U()}.And(md.Low(W - k)))
	if g.P(50) {
		b := md.A{Lo: 1}.Shl(W - 1 - k)
		a = md.A{Hi: p.A.Hi ^ b.Hi, Lo: p.A.Lo ^ b.Lo}
		q.L = g.Range(k+1, W)
	}
	q.A = a
	return q.Norm(W)
}

// relayS does it to a set.
func (r *run) relayS(s fam.Set, n int) fam.Set {
	a := fam.SetI(mkPrefix(md.P{L: 1}))
	for i := 0; i < n; i++ {
		if i%7 == n%7 {
			s = crowdS(s, uint64(n)<<32+uint64(i))
			continue
		}
		switch (i + n) % 6 {
		case 0:
			s = s.Set_().Set()
		case 1:
			s = s.Build(func(h fam.Set_) bool {
				h.Insert(h)
				return true
			})
		case 2:
			s = s.Build(func(h fam.Set_) bool {
				h.Insert(a)
				return false
			})
		case 3:
			s = s.Union(s).Difference(fam.NewSet_())
		case 4:
			s = s.Difference(a).Union(s.Intersection(a))
		case 5:
			h := s.Set_()
			h.Remove(a)
			h.Insert(s)
			s = h.Set()
		}
	}
	return s
}

// frame checks that only objects that were written have changed, and that all
// copies of a handle agree.
func (r *run) frame(t *thr, op *sc.Op, rec *sc.Rec) {
	r.quietly(t, func() {
		// the one just used comes first, as if nothing had happened since
		if op.S >= 0 && op.S < len(r.sl) {
			if s := r.sl[op.S].Load(); s != nil && !s.bad {
				n := len(t.extra)
				r.recheck(t, op, s)
				if rec.Hit && op.Fault.Kind != "reenter" && len(t.extra) > n {
					t.extra[n].Prop = "C09"
				}
			}
		}
		for i := range r.h {
			h := r.h[i].Load()
			if h == nil {
				continue
			}
			c := h.see(0)
			if !h.dirty && !c.Same(h.last) {
				t.bad("C04", "changed-by-others", op, "frame "+op.K, "after %s: mutable object %d changed although nobody wrote to it: %v%s, was %v%s", op.K, i, c, c.Tags(), h.last, h.last.Tags())
			}
			h.last = c
			h.dirty = h.writes > 0
			r.alias(t, op, h, c)
		}
		for i := range r.sl {
			s := r.sl[i].Load()
			if s == nil || s.bad {
				continue
			}
			r.recheck(t, op, s)
		}
	})
}

func (r *run) recheck(t *thr, op *sc.Op, s *slot) {
	var c sc.Content
	if s.isSet {
		c = obsS(s.s)
	} else {
		c = obsT(s.t)
	}
	if !c.Same(s.x) {
		s.bad = true
		k := "end"
		if op != nil {
			k = op.K
		}
		t.bad("C04", "snapshot-changed", op, "snapshot after "+k, "after %s: immutable object %d changed: %v%s, was %v%s", k, s.id, c, c.Tags(), s.x, s.x.Tags())
	}
}

// alias compares the copies of a handle with each other.
func (r *run) alias(t *thr, op *sc.Op, h *hobj, c sc.Content) {
	n := len(h.t) + len(h.s)
	if n < 2 {
		return
	}
	for i := 0; i < n; i++ {
		d := h.see(i)
		ok := d.Same(c)
		var what string
		if !ok {
			what = fmt.Sprintf("contents %v%s and %v%s", c, c.Tags(), d, d.Tags())
		} else if h.isSet {
			if h.s[i].IsEmpty() != (len(c.S) == 0) {
				what = fmt.Sprintf("IsEmpty through copy %d is %v, contents %v", i, h.s[i].IsEmpty(), c)
			} else if !h.s[i].Equal(h.s[0]) || !h.s[0].Equal(h.s[i]) {
				what = "copies do not compare equal"
			} else if !h.s[i].Contains(h.s[0]) || !h.s[0].Contains(h.s[i]) {
				what = "copies do not contain each other"
			}
		} else {
			if got := h.t[i].Num(); got != h.t[0].Num() {
				what = fmt.Sprintf("NumEntries %d and %d", h.t[0].Num(), got)
			}
			for _, p := range r.s.Univ {
				if what != "" {
					break
				}
				v, k := h.t[0].Get(mkPrefix(p))
				v2, k2 := h.t[i].Get(mkPrefix(p))
				if v != v2 || k != k2 {
					what = fmt.Sprintf("Get(%v) is %d,%v and %d,%v", p, v, k, v2, k2)
				}
				v, k, q := h.t[0].Lpm(mkPrefix(p))
				v2, k2, q2 := h.t[i].Lpm(mkPrefix(p))
				if v != v2 || k != k2 || q != q2 {
					what = fmt.Sprintf("LongestMatch(%v) is %d,%v and %d,%v", p, v, k, v2, k2)
				}
			}
		}
		if what != "" {
			t.bad("C16", "copies-differ", op, "alias "+op.K, "after %s: copies 0 and %d of handle %d differ: %s", op.K, i, h.id, what)
			return
		}
	}
}

// setup makes the initial objects.
func (r *run) setup(hist *sc.Hist) (viol []sc.Violation) {
	id := 0
	for _, ti := range r.s.Tabs {
		x := r.newTableOf(ti.Zero)
		for i, p := range ti.Warm {
			if ti.Zero {
				x.Ins(mkPrefix(p), i%3, i)
				continue
			}
			x.Iou(mkPrefix(p), i%3, i)
		}
		for i, e := range ti.E {
			tag := 0
			if r.s.Cost {
				tag = r.tag(e.P.Norm(W))
			}
			if !r.s.Grow || rt.RaceBuild {
				if !ti.Zero || !x.Ins(mkPrefix(e.P), e.V, tag) {
					x.Iou(mkPrefix(e.P), e.V, tag)
				}
				continue
			}
			kind, fresh := sc.TIou, false
			n := rt.Measure(func() {
				switch i % 3 {
				case 0:
					x.Iou(mkPrefix(e.P), e.V, tag)
				case 1:
					kind, fresh = sc.TIns, x.Ins(mkPrefix(e.P), e.V, tag)
				case 2:
					kind = sc.TGoi
					x.Goi(mkPrefix(e.P), e.V, tag)
				}
			})
			r.grown(kind, n, e.P, i, 0, func(j int) md.P { return ti.E[j].P })
			if i%3 > 0 && !fresh {
				x.Iou(mkPrefix(e.P), e.V, tag)
			}
		}
		for _, p := range ti.Warm {
			if _, ok := find(ti.E, p); !ok {
				x.Del(mkPrefix(p))
			}
		}
		m := md.Table(ti.E, W)
		h := &hobj{id: id}
		r.copies(h, x, fam.Set_{})
		if r.s.Frame {
			h.last = h.see(0)
		}
		r.h[id].Store(h)
		hist.Init = append(hist.Init, sc.Content{T: m})
		id++
	}
	for _, si := range r.s.Sets {
		x := fam.NewSet_()
		if si.Zero {
			x = fam.Set{}.Set_()
		}
		var ivs []md.Iv
		ranges := 0
		for i, a := range si.Ins {
			s, ax, ok := r.setArg(r.th[len(r.th)-1], a)
			if !ok {
				continue
			}
			n := rt.Measure(func() { x.Insert(s) })
			if a.Form == "rng" {
				ranges++
			}
			ivs = append(ivs, ax.X...)
			if r.s.Grow && !rt.RaceBuild && !a.Wrap && (a.Form == "pfx" || a.Form == "addr") {
				r.grown(sc.MIns, n, argPrefix(a), i, ranges, func(j int) md.P { return argPrefix(si.Ins[j]) })
			}
		}
		m := md.Mk(ivs)
		h := &hobj{id: id, isSet: true}
		r.copies(h, nil, x)
		if r.s.Frame {
			h.last = h.see(0)
		}
		r.h[id].Store(h)
		hist.Init = append(hist.Init, sc.Content{IsSet: true, S: m})
		id++
	}
	for i := 0; r.s.Iso && i < id; i++ {
		sl := &slot{id: i, rec: &sc.Rec{Op: &sc.Op{ID: -1, K: sc.TSnap}}}
		if h := r.h[i].Load(); h.isSet {
			sl.isSet, sl.s = true, h.s[0].Set()
			sl.x = obsS(sl.s)
			sl.rec.Op.K = sc.MSnap
		} else {
			sl.t = h.t[0].Snap()
			sl.x = obsT(sl.t)
		}
		main := r.th[len(r.th)-1]
		main.slots = append(main.slots, sl)
		r.sl[i].Store(sl)
	}
	return nil
}

// argPrefix is the prefix that a plain argument covers, or the first address of
// a range.
func argPrefix(a *sc.Arg) md.P {
	switch a.Form {
	case "pfx":
		return a.P.Norm(W)
	case "addr":
		return md.P{A: a.P.A, L: W}
	case "rng":
		return md.P{A: a.P.A, L: W}
	}
	return md.P{}
}

// grown looks at what inserting one of the initial entries took, the i-th one.
// Any of the ranges before it may have left blocks of every length.
func (r *run) grown(k string, steps uint64, p md.P, i, ranges int, at func(int) md.P) {
	if steps <= sc.FewSteps {
		return
	}
	x := sc.Content{T: make([]md.E, i)}
	for j := range x.T {
		x.T[j].P = at(j).Norm(W)
	}
	p = p.Norm(W)
	n, deep := x.Deep(p, W)
	deep += ranges * W
	if lim := sc.StepLimit(k, deep+2, W); steps > lim {
		r.th[len(r.th)-1].bad("C25", "steps", nil, "steps "+k, "inserting %v takes %d steps with %d entries, which part from it at %d places (allowed: %d)", p, steps, n, deep, lim)
	}
}

// drain removes everything from a copy of each object, one prefix after the
// other, and looks at what that takes.
func (r *run) drain(main *thr, hist *sc.Hist) {
	for i := range r.h {
		h := r.h[i].Load()
		c, ok := hist.Final[i]
		if h == nil || !ok || c.Err != "" || len(hist.Init) <= i {
			continue
		}
		var ps []md.P
		for _, e := range c.T {
			ps = append(ps, e.P)
		}
		ps = append(ps, c.Raw...)
		if len(ps) > 20000 {
			continue
		}
		if e := r.guard(func() {
			k := sc.TDel
			var t tH
			var s fam.Set_
			if c.IsSet {
				k, s = sc.MRem, h.s[0].Set().Set_()
			} else {
				t = h.t[0].Snap().Clone()
			}
			// in another order than they are in
			for a := len(ps) - 1; a > 0; a-- {
				b := int(uint64(a) * 0x9e3779b97f4a7c15 >> 33 % uint64(a+1))
				ps[a], ps[b] = ps[b], ps[a]
			}
			for len(ps) > 0 {
				p := ps[len(ps)-1]
				n := rt.Measure(func() {
					if c.IsSet {
						s.Remove(mkPrefix(p))
					} else {
						t.Del(mkPrefix(p))
					}
				})
				r.grown(k, n, p, len(ps), 0, func(j int) md.P { return ps[j] })
				ps = ps[:len(ps)-1]
			}
		}); e != "" {
			main.bad("C25", "steps", nil, "drain", "removing everything from a copy of object %d: %s", i, e)
		}
	}
}

func find(es []md.E, p md.P) (int, bool) {
	for i, e := range es {
		if e.P.Norm(W) == p.Norm(W) {
			return i, true
		}
	}
	return 0, false
}

func (r *run) tag(p md.P) int {
	r.tags = append(r.tags, p)
	return len(r.tags) - 1
}

// Run executes a script under a schedule.
func Run(s *sc.Script, cfg rt.Config) (*sc.Hist, *rt.Sim) {
	rt.Reset()
	r := &run{s: s}
	r.h = make([]atomic.Pointer[hobj], s.NH)
	r.sl = make([]atomic.Pointer[slot], s.NS)
	for i := 0; i <= len(s.Threads); i++ {
		r.th = append(r.th, &thr{id: i})
	}
	hist := &sc.Hist{S: s, Born: map[int]*sc.Born{}, Final: map[int]sc.Content{}, Slots: map[int]*sc.SlotInfo{}}
	if e := r.guard(func() { r.setup(hist) }); e != "" {
		hist.Extra = append(hist.Extra, sc.Violation{Prop: setupProp(s), Class: "setup", Op: -1, Key: "setup", Msg: "inserting the initial entries: " + e})
		return hist, nil
	}
	if s.Cost {
		s.Walk(func(o *sc.Op) {
			if sc.IsWrite(o.K) {
				o.Tag = r.tag(sc.Key(o, W))
			}
		})
	}
	var bodies []func()
	for i, ops := range s.Threads {
		t, ops := r.th[i], ops
		bodies = append(bodies, func() {
			for _, op := range ops {
				r.top(t, op)
			}
		})
	}
	cfg.Clock = s.Seed
	sim := rt.Run(cfg, bodies)
	main := r.th[len(r.th)-1] // for the observations after the run
	if rt.RaceBuild {
		sim.End()
	}
	for _, t := range sim.Threads() {
		if c := t.Root(); c != t {
			// a goroutine of the library: nobody stops it, nobody waits for it
			if (t.Stuck || t.OverBudget) && !c.Stuck && !c.Abandoned && !t.Abandoned {
				hist.Leaked = append(hist.Leaked, c.ID)
			}
			continue
		}
		if t.Stuck {
			hist.Stuck = append(hist.Stuck, t.ID)
		}
		if t.Abandoned {
			hist.Aband = append(hist.Aband, t.ID)
		}
	}
	for i := range r.h {
		if h := r.h[i].Load(); h != nil {
			if e := r.guard(func() { hist.Final[i] = h.see(0) }); e != "" {
				hist.Final[i] = sc.Content{IsSet: h.isSet, Err: e}
			}
		}
	}
	for _, t := range r.th {
		for _, sl := range t.slots {
			sl := sl
			if !sl.bad {
				if e := r.guard(func() { r.recheck(main, nil, sl) }); e != "" {
					main.bad("C04", "snapshot-changed", nil, "snapshot after end", "walking immutable object %d at the end: %s", sl.id, e)
				}
			}
			hist.Slots[sl.id] = &sc.SlotInfo{ID: sl.id, Rec: sl.rec, X: sl.x, Probe: func(want sc.Content) string {
				var w string
				if e := r.guard(func() { w = r.probe(sl, want) }); e != "" {
					return e
				}
				return w
			}}
		}
	}
	if e := r.guard(func() {
		for _, k := range r.kept {
			r.again(main, nil, k, "at the end")
		}
	}); e != "" {
		main.bad("C26", "value-changed", nil, "value", "looking at values at the end: %s", e)
	}
	if s.Hist && !rt.RaceBuild && len(hist.Stuck) == 0 {
		r.history(main)
		r.ofHandles(main)
	}
	if !rt.RaceBuild {
		sim.End()
	}
	if s.Grow && !rt.RaceBuild && len(hist.Stuck) == 0 {
		r.drain(main, hist)
	}
	hist.Mapped = len(r.mapped)
	if s.Hist && len(hist.Stuck)+len(hist.Aband) == 0 {
		r.garbage(main, hist)
	}
	for _, t := range r.th {
		hist.Recs = append(hist.Recs, t.recs...)
		hist.Extra = append(hist.Extra, t.extra...)
		for i := range t.born {
			hist.Born[t.born[i].id] = &t.born[i].b
		}
	}
	sc.SortRecs(hist.Recs)
	return hist, sim
}

func setupProp(s *sc.Script) string {
	if len(s.Tabs) > 0 {
		return "C01"
	}
	return "C02"
}

func (r *run) guard(f func()) (msg string) {
	var p any
	if !rt.Solo(func() {
		defer func() {
			if !rt.Ending() {
				p = recover()
			}
		}()
		f()
	}) && p == nil {
		return "it does not end"
	}
	if p != nil {
		return fmt.Sprintf("panic: %v", p)
	}
	return ""
}

// probe tells how the object's lookups disagree with the wanted contents.
func (r *run) probe(sl *slot, want sc.Content) string {
	if sl.isSet {
		var pts []md.A
		for _, iv := range want.S {
			pts = append(pts, iv.Lo, iv.Hi, iv.Lo.Dec().And(md.Max(W)), iv.Hi.Inc().And(md.Max(W)))
		}
		for _, iv := range sl.x.S {
			pts = append(pts, iv.Lo, iv.Hi, iv.Lo.Dec().And(md.Max(W)), iv.Hi.Inc().And(md.Max(W)))
		}
		for _, p := range r.s.Univ {
			pts = append(pts, p.First(W), p.Last(W))
		}
		for _, a := range pts {
			if got := sl.s.Contains(mkAddr(a)); got != want.S.Has(a) {
				return fmt.Sprintf("Contains(%x.%x) is %v", a.Hi, a.Lo, got)
			}
		}
		return ""
	}
	var ps []md.P
	for _, e := range want.T {
		ps = append(ps, e.P)
	}
	for _, e := range sl.x.T {
		ps = append(ps, e.P)
	}
	for _, p := range r.s.Univ {
		ps = append(ps, p.Norm(W))
	}
	for _, p := range ps {
		if p.L < 0 || p.L > W {
			return "bad prefix length"
		}
		v, ok := sl.t.Get(mkPrefix(p))
		wv, wok := want.T.Get(p)
		if ok != wok || ok && v != wv {
			return fmt.Sprintf("Get(%v) is %d,%v", p, v, ok)
		}
	}
	return ""
}

func (r *run) costCheck(t *thr, c *octx, atag, btag int) {
	for _, g := range [2]int{atag, btag} {
		if g < 0 || g >= len(r.tags) {
			c.rec.CmpBad = append(c.rec.CmpBad, fmt.Sprintf("unknown value %d", g))
			return
		}
		p := r.tags[g]
		ok := false
		r.s.Walk(func(o *sc.Op) {
			if sc.IsWrite(o.K) && p.Covers(sc.Key(o, W), W) {
				ok = true
			}
		})
		for _, q := range r.mapped {
			ok = ok || p.Covers(q, W)
		}
		if !ok {
			c.rec.CmpBad = append(c.rec.CmpBad, p.String())
			return
		}
	}
}

// use exercises an object derived by aggregate, map or build.
func (r *run) use(t *thr, op *sc.Op, s tS, rec *sc.Rec) {
	prop := sc.PropOf(op.K)
	r.quietly(t, func() {
		var what string
		step := ""
		if e := r.guard(func() { what = r.useT(s, *rec.X, &step) }); e != "" {
			what = step + ": " + e
		}
		if what != "" {
			t.bad(prop, "unusable", op, "use "+op.K, "result of %s: %s", op.K, what)
		}
	})
}

func (r *run) useT(s tS, x sc.Content, step *string) string {
	if x.Err != "" {
		return x.Err
	}
	*step = "lookups"
	for i, e := range x.T {
		if i > 12 {
			break
		}
		for _, a := range []md.A{e.P.First(W), e.P.Last(W), e.P.Last(W).Inc().And(md.Max(W)), e.P.First(W).Dec().And(md.Max(W))} {
			v, ok, q := s.Lpm(mkAddr(a))
			w, wok := x.T.LPM(md.P{A: a, L: W}, W)
			if ok != wok {
				return fmt.Sprintf("LongestMatch(%x.%x) found %v, want %v", a.Hi, a.Lo, ok, wok)
			}
			if !ok {
				continue
			}
			if qq, _ := unPrefix(q); v != w.V || qq != w.P {
				return fmt.Sprintf("LongestMatch(%x.%x) = %d %v, want %d %v", a.Hi, a.Lo, v, qq, w.V, w.P)
			}
		}
		if v, ok := s.Get(mkPrefix(e.P)); !ok || v != e.V {
			return fmt.Sprintf("Get(%v) = %d,%v, want %d", e.P, v, ok, e.V)
		}
	}
	if n := s.Num(); n != int64(len(x.T)) {
		return fmt.Sprintf("NumEntries is %d with %d entries", n, len(x.T))
	}
	*step = "writes to a mutable copy"
	c := s.Clone()
	var ev []string
	diff := func(a, b tS) string {
		ev = ev[:0]
		f := func(k string) func(fam.Prefix, int) bool {
			return func(p fam.Prefix, v int) bool {
				q, _ := unPrefix(p)
				ev = append(ev, fmt.Sprintf("%s %v %d", k, q, v))
				return true
			}
		}
		a.Diff(b, func(p fam.Prefix, l, rr int) bool {
			q, _ := unPrefix(p)
			ev = append(ev, fmt.Sprintf("changed %v %d %d", q, l, rr))
			return true
		}, f("left"), f("right"), nil)
		return strings.Join(ev, "; ")
	}
	for i, e := range x.T {
		if i > 3 {
			break
		}
		*step = "update with an equal value"
		c.Iou(mkPrefix(e.P), e.V, 77+i)
		if d := diff(s, c.Snap()); d != "" {
			return "after writing an equal value, diff reports " + d
		}
		*step = "update with another value"
		nv := (e.V + 1) % 4
		c.Iou(mkPrefix(e.P), nv, 0)
		if d, w := diff(s, c.Snap()), fmt.Sprintf("changed %v %d %d", e.P, e.V, nv); d != w {
			return "after a change, diff reports " + d + ", want " + w
		}
		*step = "remove"
		if !c.Del(mkPrefix(e.P)) {
			return "remove of an entry failed"
		}
		if c.Del(mkPrefix(e.P)) {
			return "second remove of an entry succeeded"
		}
		*step = "insert"
		if !c.Ins(mkPrefix(e.P), e.V, 0) {
			return "insert of a removed entry failed"
		}
		if d := diff(c.Snap(), s); d != "" {
			return "after undoing all changes, diff reports " + d
		}
	}
	*step = "aggregate"
	if g := obsT(s.Agg()); g.Err != "" || len(g.T) > len(x.T) {
		return "aggregating it gives " + g.String()
	}
	*step = "map"
	if g := obsT(s.Map(func(p fam.Prefix, v int) (int, int) { return v, 5 })); !g.Equal(x) {
		return "mapping it to itself gives " + g.String()
	}
	if g := obsT(s); !g.Equal(x) {
		return "it changed: " + g.String()
	}
	return ""
}

// zero-value handles

func (r *run) mustPanic(t *thr, op *sc.Op, what string, f func()) {
	ok := false
	func() {
		defer func() { ok = recover() != nil }()
		f()
	}()
	if !ok {
		t.bad("C16", "zero-write", op, "zero "+what, "%s on a zero-value handle did not panic", what)
	}
}

func (r *run) mustRead(t *thr, op *sc.Op, what string, f func() bool) {
	ok := false
	var e any
	func() {
		defer func() { e = recover() }()
		ok = f()
	}()
	if e != nil {
		t.bad("C16", "zero-read", op, "zero "+what, "%s on a zero value panicked: %v", what, e)
	} else if !ok {
		t.bad("C16", "zero-read", op, "zero "+what, "%s on a zero value did not read as empty", what)
	}
}

func (r *run) zeroTable(t *thr, op *sc.Op) {
	var z fam.Table_[int]
	var zi fam.Table[int]
	p := r.prefixArg(op)
	yes := func(fam.Prefix, int) bool { return false }
	switch op.N % 20 {
	case 0:
		r.mustRead(t, op, "NumEntries", func() bool { return z.NumEntries() == 0 })
	case 1:
		r.mustRead(t, op, "Get", func() bool { _, ok := z.Get(p); return !ok })
	case 2:
		r.mustRead(t, op, "LongestMatch", func() bool { _, ok, _ := z.LongestMatch(p); return !ok })
	case 3:
		r.mustRead(t, op, "Table", func() bool {
			s := z.Table()
			return s.NumEntries() == 0 && s.Walk(yes)
		})
	case 4:
		r.mustPanic(t, op, "Insert", func() { z.Insert(p, 1) })
	case 5:
		r.mustPanic(t, op, "Update", func() { z.Update(p, 1) })
	case 6:
		r.mustPanic(t, op, "InsertOrUpdate", func() { z.InsertOrUpdate(p, 1) })
	case 7:
		r.mustPanic(t, op, "GetOrInsert", func() { z.GetOrInsert(p, 1) })
	case 8:
		r.mustPanic(t, op, "Remove", func() { z.Remove(p) })
	case 9:
		r.mustRead(t, op, "Table.Get", func() bool { _, ok := zi.Get(p); return !ok })
	case 10:
		r.mustRead(t, op, "Table.LongestMatch", func() bool { _, ok, _ := zi.LongestMatch(p); return !ok })
	case 11:
		r.mustRead(t, op, "Table.NumEntries", func() bool { return zi.NumEntries() == 0 && zi.Walk(yes) })
	case 12:
		r.mustRead(t, op, "Table.Aggregate", func() bool { return zi.Aggregate().NumEntries() == 0 })
	case 13:
		r.mustRead(t, op, "Table.Map", func() bool {
			return zi.Map(func(fam.Prefix, int) int { panic("mapper called") }).NumEntries() == 0
		})
	case 14:
		r.mustRead(t, op, "Table.Diff", func() bool { return zi.Diff(zi, nil, yes, yes, yes) })
	case 15, 16:
		r.mustRead(t, op, "Table.Table_", func() bool {
			a, b := zi.Table_(), zi.Table_()
			if !a.Insert(p, 3) || a.NumEntries() != 1 || b.NumEntries() != 0 || zi.NumEntries() != 0 {
				return false
			}
			if b.Table().Diff(a.Table(), nil, yes, nil, nil) != true {
				return false
			}
			a.InsertOrUpdate(p, 4)
			v, ok := a.Get(p)
			return ok && v == 4 && a.Remove(p) && a.NumEntries() == 0
		})
	case 17:
		r.mustRead(t, op, "Table_.Table", func() bool {
			// the snapshot of a zero handle is a zero table
			a := z.Table().Table_()
			a.InsertOrUpdate(p, 1)
			a.InsertOrUpdate(p, 1)
			g := a.Table().Aggregate()
			return a.NumEntries() == 1 && z.NumEntries() == 0 && g.NumEntries() == 1
		})
	case 18:
		r.mustRead(t, op, "Table.Build", func() bool {
			b := zi.Build(func(x fam.Table_[int]) bool { return x.Insert(p, 1) })
			c := zi.Build(func(x fam.Table_[int]) bool { x.Insert(p, 1); return false })
			return b.NumEntries() == 1 && c.NumEntries() == 0 && zi.NumEntries() == 0
		})
	case 19:
		r.mustRead(t, op, "copy of Table_", func() bool {
			y := z
			func() {
				defer func() { recover() }()
				y.Insert(p, 1)
			}()
			return y.NumEntries() == 0 && z.NumEntries() == 0
		})
	}
}

func (r *run) zeroSet(t *thr, op *sc.Op) {
	var z fam.Set_
	var zi fam.Set
	a, ax, ok := r.setArg(t, op.Arg)
	if !ok {
		return
	}
	if !ax.HasX {
		// the handle behind a caller-defined SetI: settle its contents first
		a, ax, ok = r.setArg(t, &sc.Arg{Form: "pfx", P: op.P})
	}
	x := ax.X
	is := func(s fam.Set, w md.Set) (ok bool) {
		r.quietly(t, func() { ok = obsS(s).S.Equal(w) })
		return ok
	}
	switch op.N % 19 {
	case 0:
		r.mustRead(t, op, "IsEmpty", func() bool { return z.IsEmpty() })
	case 1:
		r.mustRead(t, op, "Set", func() bool { return is(z.Set(), nil) && z.Set().IsEmpty() })
	case 2:
		r.mustRead(t, op, "Contains", func() bool { return z.Contains(a) == (len(x) == 0) })
	case 3:
		r.mustRead(t, op, "Equal", func() bool { return z.Equal(fam.Set_{}) && z.Equal(fam.NewSet_()) && fam.NewSet_().Equal(z) })
	case 4:
		r.mustRead(t, op, "Union", func() bool { return is(z.Union(a), x) })
	case 5:
		r.mustRead(t, op, "Intersection", func() bool { return is(z.Intersection(a), nil) })
	case 6:
		r.mustRead(t, op, "Difference", func() bool { return is(z.Difference(a), nil) })
	case 7:
		r.mustPanic(t, op, "Insert", func() { z.Insert(a) })
	case 8:
		r.mustPanic(t, op, "Remove", func() { z.Remove(a) })
	case 9:
		r.mustRead(t, op, "NumAddresses", func() bool { return numAddrs_(z) <= 0 })
	case 10:
		r.mustRead(t, op, "Set.Union", func() bool { return is(zi.Union(a), x) })
	case 11:
		r.mustRead(t, op, "Set.Intersection", func() bool { return is(zi.Intersection(a), nil) })
	case 12:
		r.mustRead(t, op, "Set.Difference", func() bool { return is(zi.Difference(a), nil) })
	case 13:
		r.mustRead(t, op, "Set.Contains", func() bool { return zi.Contains(a) == (len(x) == 0) && zi.IsEmpty() && zi.String() == "[]" })
	case 14:
		r.mustRead(t, op, "Set.walks", func() bool {
			return zi.WalkPrefixes(func(fam.Prefix) bool { return false }) && zi.WalkRanges(func(fam.Range) bool { return false })
		})
	case 15:
		r.mustRead(t, op, "Set.FindAvailablePrefix", func() bool { _, err := zi.FindAvailablePrefix(a, uint32(op.P.L)); return err != nil })
	case 16:
		r.mustRead(t, op, "Set.Set_", func() bool {
			m, n := zi.Set_(), zi.Set_()
			m.Insert(a)
			return is(m.Set(), x) && n.IsEmpty() && zi.IsEmpty()
		})
	case 17:
		r.mustRead(t, op, "zero as argument", func() bool {
			m := fam.NewSet_()
			m.Insert(a)
			before := m.Set()
			m.Insert(z)
			m.Remove(z)
			return m.Contains(z) && is(m.Set(), x) && is(m.Union(z), x) && is(m.Difference(z), x) && is(m.Intersection(z), nil) && m.Set().Equal(before)
		})
	case 18:
		r.mustRead(t, op, "Equal", func() bool {
			m := fam.NewSet_()
			m.Insert(a)
			return z.Equal(m) == (len(x) == 0) && m.Equal(z) == (len(x) == 0)
		})
	}
}

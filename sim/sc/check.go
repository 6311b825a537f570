package sc

import (
	"fmt"
	"strings"

	"verifsim/md"
)

// Stats counts what was checked in one run.
type Stats struct {
	Lin     LinStats
	Ops     map[string]int
	Status  map[string]int
	Faults  map[string]int
	Rechk   int // immutable objects re-walked
	Diffs   int
	CmpSeen int
	Grown   int // operations whose cost was measured
}

type checker struct {
	h    *Hist
	w    int
	v    []Violation
	st   *Stats
	refd map[int][]*Rec // writes per handle
	size map[int]int    // largest number of entries seen, per handle
}

func (c *checker) bad(prop, class string, r *Rec, key, f string, a ...any) {
	id := -1
	if r != nil {
		id = r.Op.ID
	}
	msg := fmt.Sprintf(f, a...)
	if r != nil {
		msg = fmt.Sprintf("op %d %s: %s", id, r.Op.K, msg)
	}
	c.v = append(c.v, Violation{Prop: prop, Class: class, Op: id, Msg: msg, Key: key})
}

// Check runs all oracles over a history.
func Check(h *Hist, st *Stats) []Violation {
	c := &checker{h: h, w: h.S.W(), st: st, refd: map[int][]*Rec{}, size: map[int]int{}}
	if st.Ops == nil {
		st.Ops, st.Status, st.Faults = map[string]int{}, map[string]int{}, map[string]int{}
	}
	c.extra()
	for _, r := range h.Recs {
		if r.Size > c.size[r.Op.H] {
			c.size[r.Op.H] = r.Size
		}
		st.Ops[r.Op.K]++
		st.Status[r.St]++
		if r.Hit {
			st.Faults[r.Op.Fault.Kind]++
		}
		if IsWrite(r.Op.K) {
			c.refd[r.Op.H] = append(c.refd[r.Op.H], r)
		}
	}
	for _, r := range h.Recs {
		c.status(r)
	}
	for _, r := range h.Recs {
		if r.St == OK || r.St == Faulted || r.St == Exited || r.St == Pending {
			c.local(r)
		}
	}
	if h.S.Grow {
		for _, r := range h.Recs {
			c.grow(r)
		}
	}
	if h.S.Whole {
		for _, r := range h.Recs {
			c.linear(r)
		}
	}
	for _, t := range h.Stuck {
		c.bad("C14", "stuck", nil, "stuck", "thread %d is blocked for ever", t)
		if c.anyFault() {
			c.bad("C09?", "after-fault", nil, "stuck after fault", "thread %d is blocked for ever after a fault in caller code", t)
		}
	}
	if len(h.Stuck)+len(h.Aband) == 0 {
		for _, t := range h.Leaked {
			c.bad("C27", "left-behind", nil, "left behind", "an operation of thread %d left a goroutine behind which never ends", t)
		}
	}
	c.lin()
	c.canon()
	return c.v
}

func (c *checker) anyFault() bool {
	for _, r := range c.h.Recs {
		if r.Hit && r.Op.Fault.Kind != "reenter" {
			return true
		}
	}
	return false
}

// extra takes over what was found during the run.
func (c *checker) extra() {
	for _, v := range c.h.Extra {
		if strings.Contains(v.Msg, "verifsim:") {
			v.Prop, v.Class, v.Key = "C14", "stuck", "observation"
		}
		c.v = append(c.v, v)
		if v.Prop == "C04" {
			op := c.opByID(v.Op)
			add := map[string]bool{}
			if op != nil {
				switch p := PropOf(op.K); p {
				case "C07", "C08", "C10", "C13", "C05", "C06":
					add[p] = true
				}
				if c.inBuild(op.ID) {
					add["C10"] = true
				}
			}
			for p := range add {
				w := v
				w.Prop = p
				w.Class = "side-effect"
				c.v = append(c.v, w)
			}
		}
	}
	for _, s := range c.h.Slots {
		c.st.Rechk++
		_ = s
	}
}

func (c *checker) opByID(id int) (o *Op) {
	c.h.S.Walk(func(x *Op) {
		if x.ID == id {
			o = x
		}
	})
	return o
}

func (c *checker) inBuild(id int) bool {
	in := false
	c.h.S.Walk(func(x *Op) {
		if x.K == IBuild || x.K == SBuild {
			if x.ID == id {
				in = true
			}
			for _, s := range x.Sub {
				if s.ID == id {
					in = true
				}
			}
		}
	})
	return in
}

func end(r *Rec) int64 {
	if r.St == Pending || r.Ret == 0 {
		return inf
	}
	return r.Ret
}

func overlap(a, b *Rec) bool { return a.Inv < end(b) && b.Inv < end(a) }

// status looks at operations that did not return normally.
func (c *checker) status(r *Rec) {
	prop := PropOf(r.Op.K)
	faultBefore := func() bool {
		for _, q := range c.h.Recs {
			if q.Hit && q.Op.Fault.Kind != "reenter" && q.Inv < r.Inv {
				return true
			}
		}
		return false
	}
	switch r.St {
	case Skipped:
		return
	case Pending:
		return
	case Budget:
		if !c.h.S.Cost {
			c.bad("C14", "no-end", r, "budget "+r.Op.K, "took more steps than allowed (suspended threads: %v)", c.h.Aband)
			if faultBefore() {
				c.bad("C09?", "after-fault", r, "budget after fault", "does not end after a fault in caller code")
			}
		}
		return
	case Runtime:
		c.bad(prop, "runtime-error", r, "runtime "+r.Op.K, "run-time error: %s", r.Msg)
		if IsWrite(r.Op.K) {
			c.bad("C03", "runtime-error", r, "runtime "+r.Op.K, "run-time error: %s", r.Msg)
		}
		if faultBefore() {
			c.bad("C09?", "after-fault", r, "runtime after fault", "run-time error after a fault: %s", r.Msg)
		}
		return
	case Conflict:
		if !IsWrite(r.Op.K) {
			if r.Hit && r.Op.Fault.Kind != "reenter" {
				c.bad("C09", "panic-changed", r, "panic changed", "the injected panic came out as %q", r.Msg)
				return
			}
			c.bad(prop, "panic", r, "panic "+r.Op.K, "panicked: %s", r.Msg)
			if faultBefore() {
				c.bad("C09?", "after-fault", r, "panic after fault", "panicked after an earlier fault: %s", r.Msg)
			}
			return
		}
		if r.Hit && r.Op.Fault.Kind != "reenter" {
			c.bad("C09", "panic-changed", r, "panic changed", "the injected panic came out as %q", r.Msg)
			return
		}
		why := false
		self := false
		for _, q := range c.refd[r.Op.H] {
			if q == r || !overlap(q, r) {
				continue
			}
			if q.Th == r.Th {
				self = true
			}
			if q.St == OK || q.St == Pending {
				why = true
			}
		}
		if !why {
			c.bad("C03", "spurious-conflict", r, "spurious "+r.Op.K, "panicked (%s) although no write that succeeded or is unfinished overlapped it", r.Msg)
			if !c.h.S.Multi {
				c.bad(prop, "spurious-conflict", r, "spurious "+r.Op.K, "panicked (%s) with a single writer", r.Msg)
			}
			if faultBefore() {
				c.bad("C09?", "after-fault", r, "conflict after fault", "panicked (%s) without any overlapping write after an earlier fault in caller code", r.Msg)
			}
			if len(c.h.Aband) > 0 {
				c.bad("C14", "spurious-conflict", r, "spurious "+r.Op.K, "panicked (%s) although the others have stopped", r.Msg)
			}
		} else if r.Sw0 == r.Sw1 && !self {
			c.bad("C03", "undisturbed-conflict", r, "undisturbed "+r.Op.K, "panicked (%s) although no other thread took a step meanwhile", r.Msg)
			c.bad("C14", "undisturbed-conflict", r, "undisturbed "+r.Op.K, "panicked (%s) although no other thread took a step meanwhile", r.Msg)
		}
		return
	}
	// faults in caller code
	if r.Hit && r.Op.Fault.Kind == "panic" && r.St == OK {
		c.bad("C09", "swallowed", r, "swallowed "+r.Op.K, "the panic of the caller's code did not reach the caller")
	}
	if r.Hit && r.Op.Fault.Kind == "goexit" && r.St == OK {
		c.bad("C09", "swallowed", r, "swallowed "+r.Op.K, "the goroutine went on after its exit")
	}
	if r.St == Exited && !r.Hit && !c.parentHit(r) {
		c.bad(prop, "exit", r, "exit", "the goroutine exited by itself")
	}
	if (r.St == Faulted || r.St == Exited) && r.Hit && IsWrite(r.Op.K) && r.After != nil {
		alone := true
		for _, q := range c.refd[r.Op.H] {
			if q != r && overlap(q, r) {
				alone = false
			}
		}
		if r.Before != nil && (alone || r.Sw0 == r.Sw1) && !r.Before.Same(*r.After) {
			c.bad("C09", "partial", r, "partial "+r.Op.K, "interrupted by a fault in caller code, yet the contents changed from %v%s to %v%s", r.Before, r.Before.Tags(), r.After, r.After.Tags())
		}
		if r.AtFault != nil && (alone || r.AtSw == r.Sw1) && !r.AtFault.Same(*r.After) {
			c.bad("C09", "partial", r, "partial "+r.Op.K, "contents changed after the fault in caller code from %v%s to %v%s", r.AtFault, r.AtFault.Tags(), r.After, r.After.Tags())
		}
	}
	// what others write meanwhile may make the object larger
	if r.Solo > 0 && r.Steps > 10*r.Solo+400*uint64(c.size[r.Op.H])+3000 && !r.Op.Lock && r.Op.Retry == 0 && r.Op.Fault == nil {
		c.bad("C14", "steps", r, "steps "+r.Op.K, "took %d of its own steps while others were writing, %d alone, at most %d entries", r.Steps, r.Solo, c.size[r.Op.H])
	}
}

func (c *checker) parentHit(r *Rec) bool {
	for _, q := range c.h.Recs {
		if q.Parent == r && q.St == Exited {
			return true
		}
	}
	for p := r.Parent; p != nil; p = p.Parent {
		if p.Hit {
			return true
		}
	}
	return false
}

func evsEqual(a, b []Ev, prefixOnly bool) string {
	for i := range a {
		if i >= len(b) {
			return fmt.Sprintf("callback %d is %v, want none", i+1, a[i])
		}
		if a[i] != b[i] {
			return fmt.Sprintf("callback %d is %v, want %v", i+1, a[i], b[i])
		}
	}
	if len(a) < len(b) && !prefixOnly {
		return fmt.Sprintf("%d callbacks, want %d, next %v", len(a), len(b), b[len(a)])
	}
	return ""
}

func (e Ev) String() string { return fmt.Sprintf("{%s %v %d %d}", e.C, e.P, e.V, e.W) }

// seq compares a sequence of callbacks with the full one, given the stop rule.
func (c *checker) seq(prop, class string, r *Rec, want []Ev) {
	full := len(want)
	n := r.Op.N
	if n > 0 && full > n {
		want = want[:n]
	}
	done := r.St == OK
	if b := evsEqual(r.Evs, want, !done); b != "" {
		c.bad(prop, class, r, class+" "+r.Op.K, "%s", b)
		return
	}
	if done {
		stopped := n > 0 && full >= n
		if r.OK == stopped {
			c.bad(prop, class+"-result", r, "result "+r.Op.K, "returned %v after %d of %d callbacks (stop after %d)", r.OK, len(r.Evs), full, n)
		}
	}
}

// local checks operations on immutable objects against the contents these had.
func (c *checker) local(r *Rec) {
	w := c.w
	o := r.Op
	done := r.St == OK
	if (r.SX != nil && r.SX.Err != "") || (r.SX2 != nil && r.SX2.Err != "") {
		return
	}
	if r.X != nil && r.X.Err != "" {
		c.bad("C05", "walk-broken", r, "walk broken", "walking the result: %s", r.X.Err)
		if o.K[0] == 'i' || o.K[0] == 's' {
			c.bad(PropOf(o.K), "broken", r, "broken "+o.K, "walking the result: %s", r.X.Err)
		}
		return
	}
	wantX := func(prop string, want Content) {
		if r.X == nil || r.X.Same(want) {
			return
		}
		if s := c.h.Slots[o.D]; s != nil && s.Rec == r && s.Probe != nil {
			if s.Probe(want) == "" {
				c.bad("C05", "walk", r, "walk", "walking the result gives %v, but its lookups say %v", r.X, want)
			}
		}
		c.bad(prop, "result", r, "result "+o.K, "result %v%s, want %v%s", r.X, r.X.Tags(), want, want.Tags())
	}
	var a md.Set
	known := true
	if o.K[0] == 's' || o.K[0] == 'o' {
		if r.Arg != nil {
			known = r.Arg.HasX
			a = r.Arg.X
		}
	}
	gb := func(prop string, want bool) {
		if done && r.OK != want {
			c.bad(prop, "result", r, "result "+o.K, "returned %v, want %v", r.OK, want)
		}
	}
	switch o.K {
	case IGet:
		if !done {
			return
		}
		v, ok := r.SX.T.Get(Key(o, w))
		if ok != r.OK || ok && v != r.V {
			c.bad("C01", "result", r, "result "+o.K, "%v: returned %d,%v, want %d,%v", Key(o, w), r.V, r.OK, v, ok)
		}
	case ILpm:
		if !done {
			return
		}
		x, ok := r.SX.T.LPM(Key(o, w), w)
		if ok != r.OK || ok && (x.V != r.V || x.P != r.P) {
			c.bad("C01", "result", r, "result "+o.K, "%v: returned %v=%d,%v, want %v=%d,%v", Key(o, w), r.P, r.V, r.OK, x.P, x.V, ok)
		}
	case INum:
		if done && r.N != int64(len(r.SX.T)) {
			c.bad("C01", "result", r, "result "+o.K, "returned %d, want %d", r.N, len(r.SX.T))
		}
	case IWalk:
		var want []Ev
		for _, e := range r.SX.T {
			want = append(want, Ev{P: e.P, V: e.V})
		}
		c.seq("C05", "walk", r, want)
	case IDiff:
		if r.SX2 == nil {
			return
		}
		c.st.Diffs++
		c.st.CmpSeen += r.Cmp
		c.seq("C06", "diff", r, diffWant(r.SX.T, r.SX2.T, o.M))
		if len(r.CmpBad) > 0 {
			c.bad("C17", "compared", r, "compared", "compared values of entries that were not affected by any write: %s", strings.Join(r.CmpBad, ", "))
		}
		if c.h.S.Cost && done && o.M&8 != 0 && r.Parent == nil {
			nw := c.h.Mapped
			for _, q := range c.h.Recs {
				if IsWrite(q.Op.K) {
					nw++
				}
			}
			if lim := uint64((nw+1)*(w+2)) * CostPerNode; r.Steps > lim {
				c.bad("C17", "steps", r, "diff steps", "took %d steps for %d writes (bound %d), table of %d entries", r.Steps, nw, lim, len(r.SX.T))
			}
		}
	case IAgg:
		if done {
			c.agg(r)
		}
	case IMap:
		var want []Ev
		for _, e := range r.SX.T {
			want = append(want, Ev{P: e.P, V: e.V, W: MapVal(o.M, e.P, e.V)})
		}
		if b := evsEqual(r.Evs, want, !done); b != "" {
			c.bad("C08", "mapper-calls", r, "mapper calls", "%s", b)
		}
		if done && r.X != nil {
			var t md.T
			for _, e := range want {
				t = append(t, md.E{P: e.P, V: e.W})
			}
			wantX("C08", Content{T: t})
		}
	case IBuild, SBuild:
		if !done {
			return
		}
		if r.N != 1 {
			c.bad("C10", "calls", r, "build calls", "callback was called %d times", r.N)
			return
		}
		if o.M == 0 {
			if r.Build != nil {
				wantX("C10", *r.Build)
			}
		} else {
			wantX("C10", *r.SX)
		}
	case IClone, SClone:
		wantX("C04", *r.SX)
	case SHas:
		if known {
			gb("C13", r.SX.S.Contains(a))
		}
	case SEmpty:
		gb("C13", len(r.SX.S) == 0)
	case SEq:
		if r.SX2 != nil {
			gb("C13", r.SX.S.Equal(r.SX2.S))
			gb("C12", r.SX.S.Equal(r.SX2.S))
		}
	case SCnt:
		if n, ok := r.SX.S.Count64(); done && ok && r.N >= 0 && r.N != n {
			c.bad("C13", "result", r, "result "+o.K, "returned %d, want %d", r.N, n)
		}
	case SUni:
		if known {
			wantX("C13", Content{IsSet: true, S: r.SX.S.Union(a)})
		}
	case SInt:
		if known {
			wantX("C13", Content{IsSet: true, S: r.SX.S.Inter(a)})
		}
	case SDif:
		if known {
			wantX("C13", Content{IsSet: true, S: r.SX.S.Diff(a)})
		}
	case OHas:
		if known && r.Arg2 != nil {
			gb("C13", r.Arg2.X.Contains(a))
		}
	case OFix:
		if known && r.X != nil {
			want := Content{IsSet: true, S: a}
			wantX("C13", want)
			if done && r.N >= 0 {
				if n, ok := a.Count64(); ok && n != r.N {
					c.bad("C13", "result", r, "range count", "range counts %d addresses, want %d", r.N, n)
				}
			}
		}
	case SWalkP:
		var want []Ev
		for _, p := range r.SX.Raw {
			want = append(want, Ev{P: p})
		}
		c.seq("C05", "walk", r, want)
	case SWalkR:
		var want []Ev
		for _, iv := range r.SX.S {
			want = append(want, Ev{P: md.P{A: iv.Lo}}, Ev{P: md.P{A: iv.Hi}})
		}
		q := *r
		qo := *o
		q.Op = &qo
		if qo.N > 0 {
			qo.N *= 2
		}
		c.seq("C05", "walk", &q, want)
	case SWalkA:
		const lim = 3000
		var want []Ev
		n := lim
		if o.N > 0 && o.N < lim {
			n = o.N
		}
	out:
		for _, iv := range r.SX.S {
			for x := iv.Lo; ; x = x.Inc() {
				want = append(want, Ev{P: md.P{A: x}})
				if len(want) > n {
					break out
				}
				if x == iv.Hi {
					break
				}
			}
		}
		q := *r
		qo := *o
		q.Op = &qo
		qo.N = n
		c.seq("C05", "walk", &q, want)
	case SStr:
		if done {
			if want := "[" + strings.Join(r.Notes, ", ") + "]"; r.Str != want {
				c.bad("C12", "string", r, "string", "printed %s, want %s", r.Str, want)
			}
		}
	case SNumP:
		if done {
			n, over := r.SX.S.NumPrefixes(w, o.N)
			if over {
				if r.OK {
					c.bad("C12", "count", r, "count", "count of /%d is %d although it does not fit", o.N, uint64(r.N))
				}
			} else if !r.OK || uint64(r.N) != n {
				c.bad("C12", "count", r, "count", "count of /%d is %d (ok %v), want %d", o.N, uint64(r.N), r.OK, n)
			}
		}
	case SFind:
		if done {
			c.find(r)
		}
	}
}

// CostPerNode is the number of steps a diff may spend per visited node.
var CostPerNode uint64 = 60

func diffWant(l, r md.T, mask int) []Ev {
	var out []Ev
	put := func(bit int, e Ev) {
		if mask&bit == 0 {
			out = append(out, e)
		}
	}
	i, j := 0, 0
	for i < len(l) || j < len(r) {
		switch {
		case j == len(r) || i < len(l) && l[i].P.Less(r[j].P):
			put(2, Ev{C: "left", P: l[i].P, V: l[i].V})
			i++
		case i == len(l) || r[j].P.Less(l[i].P):
			put(4, Ev{C: "right", P: r[j].P, V: r[j].V})
			j++
		default:
			if l[i].V == r[j].V {
				put(8, Ev{C: "same", P: l[i].P, V: l[i].V})
			} else {
				put(1, Ev{C: "changed", P: l[i].P, V: l[i].V, W: r[j].V})
			}
			i++
			j++
		}
	}
	return out
}

func (c *checker) agg(r *Rec) {
	w := c.w
	in, out := r.SX.T, r.X.T
	if len(out) > len(in) {
		c.bad("C07", "grows", r, "agg grows", "%d entries became %d", len(in), len(out))
	}
	a, _ := in.Segments(w)
	b, up := out.Segments(w)
	for i := 0; i < len(a) || i < len(b); i++ {
		if i < len(a) && i < len(b) && a[i] == b[i] {
			continue
		}
		var at md.A
		if i < len(a) && (i >= len(b) || !b[i].Lo.Less(a[i].Lo)) {
			at = a[i].Lo
		} else {
			at = b[i].Lo
		}
		x, ok := in.LPM(md.P{A: at, L: w}, w)
		y, ok2 := out.LPM(md.P{A: at, L: w}, w)
		c.bad("C07", "lookup", r, "agg lookup", "address %x.%x matched %d,%v before and %d,%v after aggregation of %v to %v", at.Hi, at.Lo, x.V, ok, y.V, ok2, in, out)
		return
	}
	for i, e := range out {
		if e.P.L > 0 {
			if up[i] >= 0 && out[up[i]].V == e.V {
				c.bad("C07", "redundant", r, "agg redundant", "entry %v=%d is redundant with %v: %v became %v", e.P, e.V, out[up[i]].P, in, out)
				return
			}
			sib := md.P{A: e.P.A, L: e.P.L}
			bit := md.Pow2(w - e.P.L)
			sib.A = md.A{Hi: sib.A.Hi ^ bit.Hi, Lo: sib.A.Lo ^ bit.Lo}
			if v, ok := out.Get(sib); ok && v == e.V {
				c.bad("C07", "combinable", r, "agg combinable", "halves %v and %v are both %d: %v became %v", e.P, sib, v, in, out)
				return
			}
		}
	}
}

// findOK checks the answer of a free-prefix search against one state of the
// reserved set.
func (c *checker) findOK(r *Rec, res md.Set) string {
	l := r.Op.N
	free := r.SX.S.Diff(res)
	best := -1
	if l >= 0 && l <= c.w {
		for _, p := range free.Prefixes(c.w) {
			if p.L <= l && p.L > best {
				best = p.L
			}
		}
	}
	if best < 0 {
		if r.OK {
			return fmt.Sprintf("found %v for length %d although nothing fits in %v minus %v", r.P, l, r.SX.S, res)
		}
		return ""
	}
	if !r.OK {
		return fmt.Sprintf("found nothing of length %d although a /%d is free in %v minus %v", l, best, r.SX.S, res)
	}
	if r.Raw {
		return fmt.Sprintf("result %v has host bits", r.P)
	}
	if r.P.L != l {
		return fmt.Sprintf("asked for length %d, got %v", l, r.P)
	}
	for _, p := range free.Prefixes(c.w) {
		if p.Covers(r.P, c.w) {
			if p.L != best {
				return fmt.Sprintf("took %v from the free block %v although a /%d would do", r.P, p, best)
			}
			return ""
		}
	}
	return fmt.Sprintf("%v is not free in %v minus %v", r.P, r.SX.S, res)
}

func (c *checker) find(r *Rec) {
	if r.Arg == nil || !r.Arg.HasX {
		if r.Arg != nil && r.Arg.H >= 0 {
			// never looked at the reserved set: right only if it does not matter
			if len(r.SX.S) > 0 && r.OK {
				c.bad("C15", "find", r, "find", "answered %v without looking at the reserved set", r.P)
			}
			return
		}
	}
	if b := c.findOK(r, r.Arg.X); b != "" {
		c.bad("C15", "find", r, "find", "%s", b)
	}
}

// lin checks the history of every mutable object.
func (c *checker) lin() {
	h := c.h
	for id := 0; id < h.S.NH; id++ {
		var init Content
		var at int64 = -1
		if id < len(h.Init) {
			init = h.Init[id]
		} else if b := h.Born[id]; b != nil {
			init, at = b.X, b.At
		} else {
			continue
		}
		if init.Err != "" {
			continue
		}
		var evs []*hev
		fault := false
		conf := false
		for _, r := range h.Recs {
			if r.Arg != nil && r.Arg.H == id && r.Arg.HasX && r.Op.Arg != nil && r.Op.Arg.Wrap {
				evs = append(evs, &hev{rec: r, inv: r.Inv, ret: end(r), isObs: true, obs: r.Arg.X})
			}
			if r.Op.K[0] != 't' && r.Op.K[0] != 'm' || r.Op.H != id || r.Inv <= at || r.St == Skipped {
				continue
			}
			if r.Hit && r.Op.Fault.Kind != "reenter" {
				fault = true
			}
			if IsWrite(r.Op.K) {
				switch r.St {
				case OK:
					evs = append(evs, &hev{rec: r, inv: r.Inv, ret: end(r), write: true})
				case Pending, Budget:
					evs = append(evs, &hev{rec: r, inv: r.Inv, ret: inf, write: true, opt: true})
				case Conflict:
					conf = true
				}
			} else if r.St == OK {
				evs = append(evs, &hev{rec: r, inv: r.Inv, ret: end(r)})
			}
		}
		if f, ok := h.Final[id]; ok {
			evs = append(evs, &hev{inv: inf - 1, ret: inf, final: &f})
			if strings.Contains(f.Err, "verifsim:") {
				c.bad("C14", "stuck", nil, "observation", "object %d cannot be read any more: %s", id, f.Err)
				continue
			}
		}
		bad, msg, multi, allowed := linearize(h, id, init, evs, &c.st.Lin)
		if bad == nil {
			continue
		}
		prop := "C01"
		if init.IsSet {
			prop = "C02"
		}
		rec := bad.rec
		k := "final"
		if rec != nil {
			k = rec.Op.K
		}
		if multi || conf || h.S.Multi {
			c.bad("C03", "not-linearizable", rec, "lin "+k, "no order of the writes explains the history of object %d: %s", id, msg)
		}
		if !multi {
			// a walk that shows something else than lookups do?
			walk := false
			if rec != nil && rec.X != nil {
				if s := h.Slots[rec.Op.D]; s != nil && s.Rec == rec && s.Probe != nil {
					for _, v := range allowed {
						if want, ok := expectX(rec, v); ok && s.Probe(want) == "" {
							walk = true
							c.bad("C05", "walk", rec, "walk", "walking the result gives %v, but its lookups say %v", rec.X, want)
							break
						}
					}
				}
			}
			_ = walk
			if c.aliased(id) {
				c.bad("C16", "not-aliased", rec, "alias lin "+k, "writes through copies of the handle of object %d are not what reads through others see: %s", id, msg)
			}
			c.bad(prop, "not-linearizable", rec, "lin "+k, "object %d: %s", id, msg)
		}
		if fault {
			c.bad("C09?", "after-fault", rec, "lin after fault", "after a fault in caller code, object %d: %s", id, msg)
		}
	}
}

// aliased is whether object id was used through different copies of its handle.
func (c *checker) aliased(id int) bool {
	first := -1
	n := max(c.h.S.Copies, 1)
	for _, r := range c.h.Recs {
		if r.Op.H != id || r.Op.K[0] != 't' && r.Op.K[0] != 'm' || r.St == Skipped {
			continue
		}
		if first >= 0 && first != r.Op.A%n {
			return true
		}
		first = r.Op.A % n
		if r.Arg != nil && r.Arg.H == id {
			return true
		}
	}
	return false
}

// expectX is the result of a read that makes an immutable object from contents v.
func expectX(r *Rec, v Content) (Content, bool) {
	var a md.Set
	if r.Arg != nil {
		if !r.Arg.HasX {
			return v, false
		}
		a = r.Arg.X
	}
	switch r.Op.K {
	case TSnap, MSnap:
		return v, true
	case MUni:
		return Content{IsSet: true, S: v.S.Union(a)}, true
	case MInt:
		return Content{IsSet: true, S: v.S.Inter(a)}, true
	case MDif:
		return Content{IsSet: true, S: v.S.Diff(a)}, true
	}
	return v, false
}

// canon checks that every set is represented canonically.
func (c *checker) canon() {
	one := func(x Content, r *Rec, what string) {
		if !x.IsSet || x.Err != "" {
			return
		}
		want := x.S.Prefixes(c.w)
		for i := 0; i < len(want) || i < len(x.Raw); i++ {
			if i >= len(want) || i >= len(x.Raw) || want[i] != x.Raw[i] {
				c.bad("C12", "not-canonical", r, "canon", "%s has prefixes %v, minimal are %v", what, short(x.Raw), short(want))
				for j := 1; j < len(x.Raw); j++ {
					if !x.Raw[j-1].Norm(c.w).Less(x.Raw[j].Norm(c.w)) {
						c.bad("C05", "walk-order", r, "walk order", "%s is walked as %v", what, short(x.Raw))
						break
					}
				}
				return
			}
		}
	}
	for id := range sortedSlots(c.h.Slots) {
		s := c.h.Slots[id]
		if s != nil {
			one(s.X, s.Rec, fmt.Sprintf("immutable object %d", id))
		}
	}
	for id := 0; id < c.h.S.NH; id++ {
		if x, ok := c.h.Final[id]; ok {
			one(x, nil, fmt.Sprintf("mutable object %d", id))
		}
	}
}

func short(p []md.P) []md.P {
	if len(p) > 12 {
		return p[:12]
	}
	return p
}

func sortedSlots(m map[int]*SlotInfo) []int {
	max := -1
	for k := range m {
		if k > max {
			max = k
		}
	}
	return make([]int, max+1)
}

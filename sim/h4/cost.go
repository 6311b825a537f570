package h4

import (
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"unsafe"
	"weak"

	fam "gopkg.in/addrs.v1/ipv4"

	"verifsim/md"
	"verifsim/rt"
	"verifsim/sc"
)

// held is the memory that can be reached from an object, whatever it looks
// like inside.
type held struct {
	seen   map[unsafe.Pointer]bool
	blocks int // distinct allocations
	bytes  uintptr
	values int // distinct values of kind 2
	base   *held
}

func (h *held) known(p unsafe.Pointer) bool {
	return h.seen[p] || h.base != nil && h.base.seen[p]
}

func (h *held) add(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		p := v.UnsafePointer()
		if p == nil || h.known(p) || strings.HasPrefix(v.Type().Elem().PkgPath(), "verifsim/") {
			return
		}
		h.seen[p] = true
		h.blocks++
		h.bytes += v.Type().Elem().Size()
		h.add(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		if e.Kind() != reflect.Pointer {
			h.bytes += e.Type().Size()
		}
		h.add(e)
	case reflect.Struct:
		if strings.HasPrefix(v.Type().PkgPath(), "verifsim/") && v.Type().Name() != "tagged" {
			return
		}
		if v.Type().PkgPath() == "sync/atomic" && strings.HasPrefix(v.Type().Name(), "Pointer[") {
			if p := v.FieldByName("v"); p.IsValid() && p.Kind() == reflect.UnsafePointer && p.UnsafePointer() != nil {
				h.add(reflect.NewAt(v.Type().Field(0).Type.Elem(), p.UnsafePointer()))
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			h.add(v.Field(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			h.add(v.Index(i))
		}
	case reflect.Slice:
		p := v.UnsafePointer()
		if p == nil || v.Cap() == 0 || h.known(p) {
			return
		}
		h.seen[p] = true
		h.blocks++
		h.bytes += uintptr(v.Cap()) * v.Type().Elem().Size()
		if v.Type() == reflect.TypeOf([]int(nil)) {
			h.values++
			return
		}
		v = v.Slice(0, v.Cap())
		for i := 0; i < v.Len(); i++ {
			h.add(v.Index(i))
		}
	case reflect.Map:
		p := v.UnsafePointer()
		if p == nil || h.known(p) {
			return
		}
		h.seen[p] = true
		h.blocks++
		for it := v.MapRange(); it.Next(); {
			h.bytes += it.Key().Type().Size() + it.Value().Type().Size()
			h.add(it.Key())
			h.add(it.Value())
		}
	}
}

// hold measures x; base, if given, is memory that does not count.
func hold(x any, base *held) *held {
	h := &held{seen: map[unsafe.Pointer]bool{}, base: base}
	h.add(reflect.ValueOf(x))
	return h
}

// inner gives the library's own object.
func (h ht[T]) inner() any { return h.t }
func (s st[T]) inner() any { return s.t }

func innerOf(x any) any {
	if i, ok := x.(interface{ inner() any }); ok {
		return i.inner()
	}
	return x
}

// newest holds the current version of a mutable object.
func (h *hobj) newest() any {
	if h.isSet {
		return h.s[0].Set()
	}
	return innerOf(h.t[0].Snap())
}

// growBefore remembers the memory that exists before an operation which should
// add little to it, and how deep the contents are where it goes.
func (r *run) growBefore(t *thr, op *sc.Op, rec *sc.Rec) (b *held) {
	r.quietly(t, func() {
		var x sc.Content
		p := sc.Key(op, W)
		switch op.K {
		case sc.TIns, sc.TUpd, sc.TIou, sc.TGoi, sc.TDel, sc.TSnap, sc.TGet, sc.TLpm, sc.TNum:
			if h := r.handle(op.H, false); h != nil {
				b = hold(h.newest(), nil)
				x = h.see(0)
			}
		case sc.MIns, sc.MRem, sc.MSnap:
			if h := r.handle(op.H, true); h != nil {
				b = hold(h.newest(), nil)
				x = h.see(0)
				if op.Arg != nil {
					p = op.Arg.P
					if op.Arg.Form == "addr" {
						p.L = W
					}
					p = p.Norm(W)
				}
			}
		case sc.IClone, sc.SClone, sc.IGet, sc.ILpm, sc.INum:
			if sl := r.slot(op.S, op.K == sc.SClone); sl != nil {
				b = hold(sl.inner(), nil)
				x = sl.x
			}
		}
		if b != nil {
			rec.Entries, rec.Deep = x.Deep(p, W)
		}
	})
	return b
}

// growAfter notes what it added.
func (r *run) growAfter(t *thr, op *sc.Op, rec *sc.Rec, before *held) {
	r.quietly(t, func() {
		var x any
		switch op.K {
		case sc.TSnap, sc.MSnap:
			if len(t.slots) > 0 && t.slots[len(t.slots)-1].rec == rec {
				x = t.slots[len(t.slots)-1].inner()
			}
		case sc.IClone, sc.SClone:
			if h := r.handle(op.D, op.K == sc.SClone); h != nil {
				if h.isSet {
					x = h.s[0]
				} else {
					x = innerOf(h.t[0])
				}
			}
		case sc.TIns, sc.TUpd, sc.TIou, sc.TGoi, sc.TDel, sc.MIns, sc.MRem:
			x = r.h[op.H].Load().newest()
		}
		if x != nil {
			h := hold(x, before)
			rec.Fresh, rec.FreshB = h.blocks, int(h.bytes)
		}
	})
}

func (sl *slot) inner() any {
	if sl.isSet {
		return sl.s
	}
	return innerOf(sl.t)
}

// twinT is a table with the same contents which never had others.
func (r *run) twinT(x sc.Content) tH {
	t := r.newTable()
	n := len(x.T)
	step := 1
	for _, s := range []int{7, 5, 3} {
		if n%s != 0 {
			step = s
			break
		}
	}
	for i := 0; i < n; i++ {
		k := (i*step + n/2) % n
		tag := 0
		if k < len(x.G) {
			tag = x.G[k]
		}
		t.Ins(mkPrefix(x.T[k].P), x.T[k].V, tag)
	}
	return t
}

func twinS(x sc.Content) fam.Set_ {
	s := fam.NewSet_()
	for i := len(x.Raw) - 1; i >= 0; i-- {
		s.Insert(mkPrefix(x.Raw[i]))
	}
	return s
}

// noBits is for comparing with a table built from prefixes without host bits.
func noBits(c sc.Content) sc.Content {
	c.Bits = nil
	return c
}

func measure(f func()) uint64 { return rt.Measure(f) }

// twins compares an object with one that has another history.
func (r *run) twins(x sc.Content, t tS, s fam.Set, other *fam.Set) (what string) {
	if x.Err != "" || len(x.T) > 3000 || len(x.Raw) > 3000 {
		return ""
	}
	var lot func(op string, a, b uint64)
	lot = func(op string, a, b uint64) {
		if what == "" && a > 2*b+150 {
			what = fmt.Sprintf("%s takes %d steps, but %d on an object which never had other contents", op, a, b)
		}
	}
	mem := func(a, b any, n int) {
		ha, hb := hold(innerOf(a), nil), hold(innerOf(b), nil)
		if ha.blocks > 2*hb.blocks+8 || ha.bytes > 2*hb.bytes+512 {
			what = fmt.Sprintf("it holds %d blocks of memory (%d bytes), an object which never had other contents %d (%d bytes)", ha.blocks, ha.bytes, hb.blocks, hb.bytes)
		} else if r.s.Val == 2 && ha.values > n {
			what = fmt.Sprintf("it keeps %d values alive with %d entries", ha.values, n)
		} else if ha.blocks > 8*n+16 {
			what = fmt.Sprintf("it holds %d blocks of memory with %d entries", ha.blocks, n)
		}
	}
	univ := r.s.Univ
	for len(univ) < 8 {
		univ = append(univ[:len(univ):len(univ)], md.P{L: len(univ) * W / 8})
	}
	if x.IsSet {
		u := twinS(x).Set()
		mem(s, u, len(x.Raw))
		var a, b uint64
		a = measure(func() { s.WalkPrefixes(func(fam.Prefix) bool { return true }) })
		b = measure(func() { u.WalkPrefixes(func(fam.Prefix) bool { return true }) })
		lot("a walk", a, b)
		a = measure(func() { s.String() })
		b = measure(func() { u.String() })
		lot("printing", a, b)
		if !s.Equal(u) || !u.Equal(s) || !s.Contains(u) || !u.Contains(s) {
			return fmt.Sprintf("%v is not equal to a set with the same contents", x)
		}
		if g, h := s.String(), u.String(); g != h {
			return fmt.Sprintf("it is printed as %s, an equal set as %s", g, h)
		}
		if n, m := numAddrs(s), numAddrs(u); n != m {
			return fmt.Sprintf("it has %d addresses, an equal set %d", n, m)
		}
		var args []fam.SetI
		for _, p := range univ[:3] {
			args = append(args, mkPrefix(p))
		}
		if other != nil {
			args = append(args, *other)
		}
		args = append(args, fam.Set{})
		for i, arg := range args {
			a = measure(func() { s.Contains(arg) })
			b = measure(func() { u.Contains(arg) })
			lot("containment", a, b)
			if s.Contains(arg) != u.Contains(arg) {
				return fmt.Sprintf("Contains %v says %v, of an equal set %v", arg, s.Contains(arg), u.Contains(arg))
			}
			for _, l := range []int{univ[i%8].L, W, 0, univ[(i+4)%8].L} {
				p, e := s.FindAvailablePrefix(arg, uint32(l))
				q, f := u.FindAvailablePrefix(arg, uint32(l))
				if (e == nil) != (f == nil) || e == nil && p != q {
					return fmt.Sprintf("the search for /%d finds %v (%v), in an equal set %v (%v)", l, p, e, q, f)
				}
			}
			d := s.Difference(arg)
			a = measure(func() { d = s.Difference(arg) })
			b = measure(func() { u.Difference(arg) })
			lot("a difference", a, b)
			if d.String() != u.Difference(arg).String() {
				return fmt.Sprintf("a difference is %v, of an equal set %v", d, u.Difference(arg))
			}
		}
		return what
	}
	u := r.twinT(x).Snap()
	mem(t, u, len(x.T))
	all := func(fam.Prefix, int) bool { return true }
	var a, b uint64
	a = measure(func() { t.Walk(all) })
	b = measure(func() { u.Walk(all) })
	lot("a walk", a, b)
	for i, p := range univ {
		if i >= 6 {
			break
		}
		var v, w int
		var f, g bool
		var p1, p2 fam.Prefix
		a = measure(func() { v, f, p1 = t.Lpm(mkPrefix(p)) })
		b = measure(func() { w, g, p2 = u.Lpm(mkPrefix(p)) })
		lot("a longest match", a, b)
		n1, _ := unPrefix(p1)
		n2, _ := unPrefix(p2)
		if v != w || f != g || f && n1 != n2 {
			return fmt.Sprintf("the longest match of %v is %v %d,%v, of an equal table %v %d,%v", p, p1, v, f, p2, w, g)
		}
	}
	var ta, ua tS
	a = measure(func() { ta = t.Agg() })
	b = measure(func() { ua = u.Agg() })
	lot("aggregation", a, b)
	if g, h := noBits(obsT(ta)), noBits(obsT(ua)); !g.Same(h) {
		return fmt.Sprintf("its aggregate is %v%s, of an equal table %v%s", g, g.Tags(), h, h.Tags())
	}
	if n, m := t.Num(), u.Num(); n != m || n != int64(len(x.T)) {
		return fmt.Sprintf("NumEntries is %d, of an equal table %d, with %d entries", n, m, len(x.T))
	}
	no := func(fam.Prefix, int) bool { return false }
	for _, y := range [][2]tS{{t, u}, {u, t}} {
		if !y[0].Diff(y[1], func(fam.Prefix, int, int) bool { return false }, no, no, nil) {
			return fmt.Sprintf("%v differs from a table with the same contents", x)
		}
	}
	a = measure(func() { t.Map(func(p fam.Prefix, v int) (int, int) { return v, 0 }) })
	b = measure(func() { u.Map(func(p fam.Prefix, v int) (int, int) { return v, 0 }) })
	lot("mapping", a, b)
	return what
}

// history looks for traces of the past in the objects that exist at the end.
func (r *run) history(main *thr) {
	type item struct {
		what string
		x    sc.Content
		t    tS
		s    fam.Set
		op   *sc.Op
	}
	var items []item
	for i := range r.h {
		if h := r.h[i].Load(); h != nil {
			it := item{what: fmt.Sprintf("mutable object %d", i), x: h.see(0)}
			if h.isSet {
				it.s = h.s[0].Set()
			} else {
				it.t = h.t[0].Snap()
			}
			items = append(items, it)
		}
	}
	n := 0
	for _, t := range r.th {
		for i := len(t.slots) - 1; i >= 0 && n < 12; i-- {
			sl := t.slots[i]
			items = append(items, item{what: fmt.Sprintf("immutable object %d", sl.id), x: sl.x, t: sl.t, s: sl.s, op: sl.rec.Op})
			n++
		}
	}
	for k, it := range items {
		var other *fam.Set
		for j := 1; j < len(items); j++ {
			if o := items[(k+j)%len(items)]; o.x.IsSet {
				other = &o.s
				break
			}
		}
		var w string
		if e := r.guard(func() { w = r.twins(it.x, it.t, it.s, other) }); e != "" {
			w = "comparing it with an equal object: " + e
		}
		if w != "" {
			main.bad("C24", "history", it.op, "history", "%s (%s): %s", it.what, it.x.Short(), w)
		}
	}
}

// born remembers a value that was passed to the library.
func (r *run) born(v *int) {
	if r.s.Hist {
		r.vals = append(r.vals, weak.Make(v))
	}
}

// garbage lets go of everything but one object, and then of that, and looks
// which values are still there.
func (r *run) garbage(main *thr, hist *sc.Hist) {
	if r.s.Val != 2 || len(r.s.Tabs) == 0 {
		return
	}
	live := func() (n int) {
		// what is in a sync.Pool survives one collection
		for i := 0; i < 3; i++ {
			runtime.GC()
		}
		for _, w := range r.vals {
			if w.Value() != nil {
				n++
			}
		}
		return n
	}
	var h *hobj
	var sl *slot
	n := 0
	what := ""
	k := int(r.s.Seed>>8) % (len(r.h) + len(r.sl))
	for i := 0; what == "" && i < len(r.h)+len(r.sl); i++ {
		j := (k + i) % (len(r.h) + len(r.sl))
		if j < len(r.h) {
			if x := r.h[j].Load(); x != nil && !x.isSet {
				h, n, what = x, len(hist.Final[j].T), fmt.Sprintf("mutable object %d", j)
			}
		} else if x := r.sl[j-len(r.h)].Load(); x != nil && !x.isSet {
			sl, n, what = x, len(x.x.T), fmt.Sprintf("immutable object %d", x.id)
		}
	}
	if what == "" {
		return
	}
	drop := func(all bool) {
		for i := range r.h {
			if x := r.h[i].Load(); x != nil && (all || x != h) {
				x.t, x.s = nil, nil
			}
		}
		for _, t := range r.th {
			t.ctx = nil
			for _, x := range t.slots {
				if all || x != sl {
					x.t, x.s = nil, fam.Set{}
				}
			}
		}
	}
	drop(false)
	if m := live(); m > n {
		main.bad("C24", "garbage", nil, "garbage", "%s with %d entries keeps %d values alive", what, n, m)
	}
	drop(true)
	if m := live(); m > 0 {
		main.bad("C24", "garbage", nil, "garbage", "%d values are alive without any table that could have them", m)
	}
}

// retained memory of a mutable handle itself, not only of its newest version
func (r *run) ofHandles(main *thr) {
	for i := range r.h {
		h := r.h[i].Load()
		if h == nil {
			continue
		}
		var w string
		e := r.guard(func() {
			x := h.see(0)
			if x.Err != "" || len(x.T) > 3000 || len(x.Raw) > 3000 {
				return
			}
			var a, b *held
			if h.isSet {
				a, b = hold(h.s[0], nil), hold(twinS(x), nil)
			} else {
				a, b = hold(innerOf(h.t[0]), nil), hold(innerOf(r.twinT(x)), nil)
			}
			if a.blocks > 2*b.blocks+8 || a.bytes > 2*b.bytes+512 || r.s.Val == 2 && a.values > len(x.T) {
				w = fmt.Sprintf("it holds %d blocks of memory (%d bytes, %d values), a new one with the same contents %d (%d bytes)", a.blocks, a.bytes, a.values, b.blocks, b.bytes)
			}
		})
		if e != "" {
			w = e
		}
		if w != "" {
			main.bad("C24", "history", nil, "memory", "mutable object %d: %s", i, w)
		}
	}
}

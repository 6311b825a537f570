package sc

import (
	"fmt"
	"math"
	"sort"

	"verifsim/md"
)

const inf = math.MaxInt64

// hev is one event in the history of a mutable object.
type hev struct {
	rec      *Rec
	inv, ret int64
	write    bool
	opt      bool   // may or may not have taken effect
	obs      md.Set // extra read: contents seen through an argument
	isObs    bool
	final    *Content
}

// step applies a write to contents c. bad says how the recorded result differs
// from what it should be; known is false if the effect cannot be told.
func step(h *Hist, c Content, r *Rec) (n Content, bad string, known bool) {
	w := h.S.W()
	o := r.Op
	n = c
	switch o.K {
	case MIns, MRem:
		if r.Arg == nil || !r.Arg.HasX {
			return c, "", false
		}
		n = Content{IsSet: true}
		if o.K == MIns {
			n.S = c.S.Union(r.Arg.X)
		} else {
			n.S = c.S.Diff(r.Arg.X)
		}
		return n, "", true
	}
	p := Key(o, w)
	v, ok := c.T.Get(p)
	n = Content{}
	want := func(b bool) {
		if r.St == OK && r.OK != b {
			bad = fmt.Sprintf("returned %v, want %v", r.OK, b)
		}
	}
	switch o.K {
	case TIns:
		want(!ok)
		n.T = c.T
		if !ok {
			n.T = c.T.Set(p, o.V)
		}
	case TUpd:
		want(ok)
		n.T = c.T
		if ok {
			n.T = c.T.Set(p, o.V)
		}
	case TIou:
		n.T = c.T.Set(p, o.V)
	case TGoi:
		n.T = c.T
		if !ok {
			n.T = c.T.Set(p, o.V)
			v = o.V
		}
		if r.St == OK && r.V != v {
			bad = fmt.Sprintf("returned %d, want %d", r.V, v)
		}
	case TDel:
		want(ok)
		n.T = c.T.Del(p)
	}
	return n, bad, true
}

// match compares a read with contents c.
func match(h *Hist, c Content, e *hev) string {
	w := h.S.W()
	if e.isObs {
		if !c.S.Equal(e.obs) {
			return fmt.Sprintf("read as %v, want %v", e.obs, c.S)
		}
		return ""
	}
	if e.final != nil {
		if !c.Equal(*e.final) {
			return fmt.Sprintf("final contents %v, want %v", *e.final, c)
		}
		return ""
	}
	r := e.rec
	o := r.Op
	gb := func(want bool) string {
		if r.OK != want {
			return fmt.Sprintf("returned %v, want %v", r.OK, want)
		}
		return ""
	}
	gx := func(want Content) string {
		if r.X == nil || !r.X.Equal(want) {
			return fmt.Sprintf("returned %v, want %v", r.X, want)
		}
		return ""
	}
	p := Key(o, w)
	switch o.K {
	case TGet:
		v, ok := c.T.Get(p)
		if r.OK != ok || ok && r.V != v {
			return fmt.Sprintf("%v: returned %d,%v, want %d,%v", p, r.V, r.OK, v, ok)
		}
		return ""
	case TLpm:
		x, ok := c.T.LPM(p, w)
		if r.OK != ok || ok && (r.V != x.V || r.P != x.P) {
			return fmt.Sprintf("%v: returned %v=%d,%v, want %v=%d,%v", p, r.P, r.V, r.OK, x.P, x.V, ok)
		}
		return ""
	case TNum:
		if r.N != int64(len(c.T)) {
			return fmt.Sprintf("returned %d, want %d", r.N, len(c.T))
		}
		return ""
	case TSnap, MSnap:
		return gx(c)
	case MEmpty:
		return gb(len(c.S) == 0)
	case MCnt:
		if n, ok := c.S.Count64(); ok && r.N >= 0 && n != r.N {
			return fmt.Sprintf("returned %d, want %d", r.N, n)
		}
		return ""
	}
	if r.Arg == nil || !r.Arg.HasX {
		return ""
	}
	a := r.Arg.X
	switch o.K {
	case MHas:
		return gb(c.S.Contains(a))
	case MEq:
		return gb(c.S.Equal(a))
	case MUni:
		return gx(Content{IsSet: true, S: c.S.Union(a)})
	case MInt:
		return gx(Content{IsSet: true, S: c.S.Inter(a)})
	case MDif:
		return gx(Content{IsSet: true, S: c.S.Diff(a)})
	}
	return ""
}

// LinStats counts what the linearizability oracles did.
type LinStats struct {
	Windows, Searches, Inconclusive, Unknown int
}

// linearize checks the history of one mutable object.
func linearize(h *Hist, id int, init Content, evs []*hev, st *LinStats) (bad *hev, msg string, multi bool, allowed []Content) {
	var writes, reads []*hev
	for _, e := range evs {
		if e.write {
			writes = append(writes, e)
		} else {
			reads = append(reads, e)
		}
	}
	sort.SliceStable(writes, func(i, j int) bool { return writes[i].inv < writes[j].inv })
	sort.SliceStable(reads, func(i, j int) bool { return reads[i].inv < reads[j].inv })
	for i := 1; i < len(writes); i++ {
		for j := 0; j < i; j++ {
			if writes[j].ret > writes[i].inv {
				multi = true
			}
		}
	}
	if multi {
		st.Searches++
		bad, msg = wgl(h, init, evs, st)
		return bad, msg, true, nil
	}
	st.Windows++
	vers := []Content{init}
	for _, e := range writes {
		n, b, known := step(h, vers[len(vers)-1], e.rec)
		if !known {
			st.Unknown++
			return nil, "", false, nil
		}
		if b != "" && !e.opt {
			return e, b, false, nil
		}
		vers = append(vers, n)
	}
	// version k exists from the call of write k on; it is the only one from its
	// return to the call of write k+1
	type done struct {
		ret int64
		v   int
	}
	var past []done
	for _, e := range reads {
		lo, hi := 0, 0
		for k, w := range writes {
			if w.ret < e.inv && !w.opt {
				lo = k + 1
			}
			if w.inv < e.ret {
				hi = k + 1
			}
		}
		for _, d := range past {
			if d.ret < e.inv && d.v > lo {
				lo = d.v
			}
		}
		ok := false
		first := ""
		for v := lo; v <= hi; v++ {
			m := match(h, vers[v], e)
			if m == "" {
				ok = true
				past = append(past, done{e.ret, v})
				break
			}
			if first == "" {
				first = m
			}
			allowed = append(allowed, vers[v])
		}
		if !ok {
			if hi > lo {
				first += fmt.Sprintf(" (or any of %d later states)", hi-lo)
			}
			return e, first, false, allowed
		}
		allowed = nil
	}
	return nil, "", false, nil
}

// wgl is the Wing-Gong-Lowe search.
func wgl(h *Hist, init Content, evs []*hev, st *LinStats) (*hev, string) {
	var ops []*hev
	ops = append(ops, evs...)
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].inv < ops[j].inv })
	n := len(ops)
	if n > 120 {
		st.Inconclusive++
		return nil, ""
	}
	type mask [2]uint64
	type key struct {
		m mask
		h uint64
	}
	seen := map[key]bool{}
	nodes := 0
	best, bestMsg := -1, ""
	bestCount := -1
	unknown := false
	var rec func(m mask, cnt int, c Content) bool
	rec = func(m mask, cnt int, c Content) bool {
		k := key{m, c.Hash()}
		if seen[k] {
			return false
		}
		seen[k] = true
		nodes++
		if nodes > 300000 {
			unknown = true
			return true
		}
		minRet := int64(inf)
		all := true
		for i, e := range ops {
			if m[i>>6]>>(uint(i)&63)&1 == 0 {
				if !e.opt {
					all = false
				}
				if e.ret < minRet {
					minRet = e.ret
				}
			}
		}
		if all {
			return true
		}
		for i, e := range ops {
			if m[i>>6]>>(uint(i)&63)&1 == 1 || e.inv > minRet {
				continue
			}
			m2 := m
			m2[i>>6] |= 1 << (uint(i) & 63)
			if !e.write {
				if b := match(h, c, e); b != "" {
					if cnt > bestCount {
						best, bestMsg, bestCount = i, b, cnt
					}
					continue
				}
				if rec(m2, cnt+1, c) {
					return true
				}
				continue
			}
			d, b, known := step(h, c, e.rec)
			if !known {
				unknown = true
				return true
			}
			if b != "" && !e.opt {
				if cnt > bestCount {
					best, bestMsg, bestCount = i, b, cnt
				}
				continue
			}
			if rec(m2, cnt+1, d) {
				return true
			}
		}
		return false
	}
	if rec(mask{}, 0, init) {
		if unknown {
			st.Inconclusive++
		}
		return nil, ""
	}
	if best < 0 {
		best = n - 1
	}
	return ops[best], bestMsg
}

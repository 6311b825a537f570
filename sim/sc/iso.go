package sc

import (
	"fmt"
	"reflect"
)

// Alone is the script with only thread t's operations.
func (s *Script) Alone(t int) *Script {
	c := s.Clone()
	for i := range c.Threads {
		if i != t {
			c.Threads[i] = nil
		}
	}
	return c
}

// Only is the script with nothing but one operation.
func (s *Script) Only(t int, o *Op) *Script {
	c := s.Clone()
	for i := range c.Threads {
		c.Threads[i] = nil
	}
	c.Threads[t] = cloneOps([]*Op{o})
	return c
}

// Depends compares what a call gave with what it gives when there is no other.
func Depends(r *Rec, h *Hist) *Violation {
	if len(h.Recs) != 1 || r.St == Pending || r.St == Skipped {
		return nil
	}
	if what := differ(r, h.Recs[0]); what != "" {
		return &Violation{Prop: "C26", Class: "depends", Op: r.Op.ID, Key: "depends", Msg: fmt.Sprintf("op %d %v: %s when nothing else was called", r.Op.ID, r.Op, what)}
	}
	return nil
}

// Influence compares what thread t saw among others with what it saw alone.
func Influence(h, alone *Hist, t int) *Violation {
	bad := func(id int, class, f string, a ...any) *Violation {
		return &Violation{Prop: "C23", Class: class, Op: id, Key: class, Msg: fmt.Sprintf("thread %d: ", t) + fmt.Sprintf(f, a...)}
	}
	for _, x := range h.Stuck {
		if x == t {
			return bad(-1, "blocked", "is blocked for ever by threads that use other objects")
		}
	}
	mine := func(h *Hist) (l []*Rec) {
		for _, r := range h.Recs {
			if r.Th == t {
				l = append(l, r)
			}
		}
		return l
	}
	left := false
	for _, x := range h.Aband {
		left = left || x == t
	}
	a, b := mine(h), mine(alone)
	for i, r := range a {
		if i >= len(b) {
			return bad(r.Op.ID, "influence", "op %d %s is executed only when other threads run", r.Op.ID, r.Op.K)
		}
		q := b[i]
		if r.Op.ID != q.Op.ID {
			return bad(r.Op.ID, "influence", "op %d is executed where it is op %d without other threads", r.Op.ID, q.Op.ID)
		}
		if r.St == Pending {
			return nil // left behind in the middle of it
		}
		if what := differ(r, q); what != "" {
			return bad(r.Op.ID, "influence", "op %d %s: %s when no other thread runs, although these use other objects", r.Op.ID, r.Op.K, what)
		}
	}
	if left {
		return nil
	}
	if len(b) > len(a) {
		return bad(b[len(a)].Op.ID, "influence", "op %d is executed only without other threads", b[len(a)].Op.ID)
	}
	seen := map[int]bool{}
	for _, r := range a {
		if !IsWrite(r.Op.K) || seen[r.Op.H] {
			continue
		}
		seen[r.Op.H] = true
		x, ok := h.Final[r.Op.H]
		y, ok2 := alone.Final[r.Op.H]
		if ok != ok2 || !x.Same(y) {
			return bad(-1, "influence", "object %d ends as %v%s, but as %v%s when no other thread runs, although these use other objects", r.Op.H, x, x.Tags(), y, y.Tags())
		}
	}
	return nil
}

func differ(r, q *Rec) string {
	switch {
	case r.St != q.St:
		return fmt.Sprintf("ends with %s %s, but %s %s", r.St, r.Msg, q.St, q.Msg)
	case r.OK != q.OK:
		return fmt.Sprintf("returns %v, but %v", r.OK, q.OK)
	case r.V != q.V || r.N != q.N:
		return fmt.Sprintf("returns %d %d, but %d %d", r.V, r.N, q.V, q.N)
	case r.P != q.P:
		return fmt.Sprintf("returns %v, but %v", r.P, q.P)
	case r.Str != q.Str:
		return fmt.Sprintf("returns %q, but %q", r.Str, q.Str)
	case len(r.Evs)+len(q.Evs) > 0 && !reflect.DeepEqual(r.Evs, q.Evs):
		return fmt.Sprintf("callbacks are %v, but %v", r.Evs, q.Evs)
	case (r.X == nil) != (q.X == nil) || r.X != nil && !r.X.Same(*q.X):
		return fmt.Sprintf("result is %v, but %v", r.X, q.X)
	}
	return ""
}

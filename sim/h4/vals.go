package h4

import (
	fam "gopkg.in/addrs.v1/ipv4"

	"verifsim/md"
)

// Tables with any value type, seen through small integers ("classes"): two
// values are equal in the sense of the table exactly if their classes are.

type tH interface {
	Ins(p fam.PrefixI, v, tag int) bool
	Upd(p fam.PrefixI, v, tag int) bool
	Iou(p fam.PrefixI, v, tag int)
	Goi(p fam.PrefixI, v, tag int) int
	Del(p fam.PrefixI) bool
	Get(p fam.PrefixI) (int, bool)
	Lpm(p fam.PrefixI) (int, bool, fam.Prefix)
	Num() int64
	Snap() tS
}

type tS interface {
	Get(p fam.PrefixI) (int, bool)
	Lpm(p fam.PrefixI) (int, bool, fam.Prefix)
	Num() int64
	Walk(cb func(p fam.Prefix, v int) bool) bool
	WalkTag(cb func(p fam.Prefix, v, tag int) bool) (tags bool)
	Diff(o tS, changed func(p fam.Prefix, l, r int) bool, left, right, same func(fam.Prefix, int) bool) bool
	Agg() tS
	Map(f func(p fam.Prefix, v int) (int, int)) tS
	Build(f func(tH) bool) tS
	Clone() tH
}

type kind[T any] struct {
	enc func(class, tag int) T
	dec func(T) int
	tag func(T) int // tells values of one class apart, nil if they are the same
}

type ht[T any] struct {
	t fam.Table_[T]
	k *kind[T]
}

func (h ht[T]) Ins(p fam.PrefixI, v, tag int) bool { return h.t.Insert(p, h.k.enc(v, tag)) }
func (h ht[T]) Upd(p fam.PrefixI, v, tag int) bool { return h.t.Update(p, h.k.enc(v, tag)) }
func (h ht[T]) Iou(p fam.PrefixI, v, tag int)      { h.t.InsertOrUpdate(p, h.k.enc(v, tag)) }
func (h ht[T]) Goi(p fam.PrefixI, v, tag int) int {
	return h.k.dec(h.t.GetOrInsert(p, h.k.enc(v, tag)))
}
func (h ht[T]) Del(p fam.PrefixI) bool { return h.t.Remove(p) }
func (h ht[T]) Get(p fam.PrefixI) (int, bool) {
	v, ok := h.t.Get(p)
	if !ok {
		return 0, false
	}
	return h.k.dec(v), true
}
func (h ht[T]) Lpm(p fam.PrefixI) (int, bool, fam.Prefix) {
	v, ok, q := h.t.LongestMatch(p)
	if !ok {
		return 0, false, fam.Prefix{}
	}
	return h.k.dec(v), true, q
}
func (h ht[T]) Num() int64 { return h.t.NumEntries() }
func (h ht[T]) Snap() tS   { return st[T]{h.t.Table(), h.k} }

type st[T any] struct {
	t fam.Table[T]
	k *kind[T]
}

func (s st[T]) Get(p fam.PrefixI) (int, bool) {
	v, ok := s.t.Get(p)
	if !ok {
		return 0, false
	}
	return s.k.dec(v), true
}
func (s st[T]) Lpm(p fam.PrefixI) (int, bool, fam.Prefix) {
	v, ok, q := s.t.LongestMatch(p)
	if !ok {
		return 0, false, fam.Prefix{}
	}
	return s.k.dec(v), true, q
}
func (s st[T]) Num() int64 { return s.t.NumEntries() }
func (s st[T]) Walk(cb func(p fam.Prefix, v int) bool) bool {
	return s.t.Walk(func(p fam.Prefix, v T) bool { return cb(p, s.k.dec(v)) })
}
func (s st[T]) WalkTag(cb func(p fam.Prefix, v, tag int) bool) bool {
	s.t.Walk(func(p fam.Prefix, v T) bool {
		tag := 0
		if s.k.tag != nil {
			tag = s.k.tag(v)
		}
		return cb(p, s.k.dec(v), tag)
	})
	return s.k.tag != nil
}
func (s st[T]) Diff(o tS, changed func(p fam.Prefix, l, r int) bool, left, right, same func(fam.Prefix, int) bool) bool {
	var c func(p fam.Prefix, l, r T) bool
	if changed != nil {
		c = func(p fam.Prefix, l, r T) bool { return changed(p, s.k.dec(l), s.k.dec(r)) }
	}
	w := func(f func(fam.Prefix, int) bool) func(fam.Prefix, T) bool {
		if f == nil {
			return nil
		}
		return func(p fam.Prefix, v T) bool { return f(p, s.k.dec(v)) }
	}
	return s.t.Diff(o.(st[T]).t, c, w(left), w(right), w(same))
}
func (s st[T]) Agg() tS { return st[T]{s.t.Aggregate(), s.k} }
func (s st[T]) Map(f func(p fam.Prefix, v int) (int, int)) tS {
	return st[T]{s.t.Map(func(p fam.Prefix, v T) T {
		return s.k.enc(f(p, s.k.dec(v)))
	}), s.k}
}
func (s st[T]) Build(f func(tH) bool) tS {
	return st[T]{s.t.Build(func(t fam.Table_[T]) bool { return f(ht[T]{t, s.k}) }), s.k}
}
func (s st[T]) Clone() tH { return ht[T]{s.t.Table_(), s.k} }

const badClass = -999

// one pointer per class, for tables of pointers
var classPtr = func() (ptr [64]*int) {
	for i := range ptr {
		ptr[i] = new(int)
		*ptr[i] = i
	}
	return
}()

type tagged struct{ class, tag int }

// note: comparators run caller code, see hook.
// fresh makes an empty mutable table, or gets one from a zero-value table.
func fresh[T comparable](zero bool) fam.Table_[T] {
	if zero {
		return fam.Table[T]{}.Table_()
	}
	return fam.NewTable_[T]()
}

func (r *run) newTable() tH { return r.newTableOf(false) }

func (r *run) newTableOf(zero bool) tH {
	switch r.s.Val {
	case 1:
		k := &kind[string]{
			enc: func(c, tag int) string { return string(rune('a' + c)) },
			dec: func(s string) int {
				if len(s) != 1 {
					return badClass
				}
				return int(s[0] - 'a')
			},
		}
		return ht[string]{fresh[string](zero), k}
	case 2: // values that == cannot compare
		k := &kind[[]int]{
			enc: func(c, tag int) []int {
				v := []int{c, tag}
				r.born(&v[0])
				return v
			},
			dec: func(v []int) int {
				if len(v) != 2 {
					return badClass
				}
				return v[0]
			},
			tag: func(v []int) int {
				if len(v) != 2 {
					return badClass
				}
				return v[1]
			},
		}
		return ht[[]int]{fam.NewTableCustomCompare_(func(a, b []int) bool {
			r.hookCmp(a[0], a[1], b[0], b[1])
			return a[0] == b[0]
		}), k}
	case 3: // equality coarser than ==
		k := &kind[tagged]{
			enc: func(c, tag int) tagged { return tagged{c + 1, tag} },
			dec: func(v tagged) int {
				if v.class == 0 {
					return badClass
				}
				return v.class - 1
			},
			tag: func(v tagged) int { return v.tag },
		}
		return ht[tagged]{fam.NewTableCustomCompare_(func(a, b tagged) bool {
			if a.class == 0 || b.class == 0 {
				r.notStored()
			}
			r.hookCmp(a.class-1, a.tag, b.class-1, b.tag)
			return a.class == b.class
		}), k}
	case 4: // nil is a value like any other
		k := &kind[any]{enc: encAny, dec: decAny}
		return ht[any]{fresh[any](zero), k}
	case 5: // nil, and what the comparator takes for equal to it
		k := &kind[any]{
			enc: func(c, tag int) any {
				if c == 0 && tag == 0 {
					return nil
				}
				return tagged{c, tag}
			},
			dec: func(v any) int {
				if v == nil {
					return 0
				}
				if v, ok := v.(tagged); ok {
					return v.class
				}
				return badClass
			},
			tag: func(v any) int {
				t, _ := v.(tagged)
				return t.tag
			},
		}
		return ht[any]{fam.NewTableCustomCompare_(func(a, b any) bool {
			r.hookCmp(k.dec(a), k.tag(a), k.dec(b), k.tag(b))
			return k.dec(a) == k.dec(b)
		}), k}
	case 6:
		ptr := &classPtr
		k := &kind[*int]{
			enc: func(c, tag int) *int { return ptr[c%64] },
			dec: func(v *int) int {
				if v == nil {
					return badClass
				}
				return *v
			},
		}
		return ht[*int]{fresh[*int](zero), k}
	}
	k := &kind[int]{
		enc: func(c, tag int) int { return c },
		dec: func(v int) int { return v },
	}
	return ht[int]{fresh[int](zero), k}
}

func encAny(c, tag int) any {
	if c == 0 {
		return nil
	}
	return c
}
func decAny(v any) int {
	if v == nil {
		return 0
	}
	if i, ok := v.(int); ok {
		return i
	}
	return badClass
}

var maskOf = func() []fam.Mask {
	m := make([]fam.Mask, W+1)
	for i := range m {
		m[i], _ = fam.MaskFromLength(i)
	}
	return m
}()

func mkPrefix(p md.P) fam.Prefix { return fam.PrefixFromAddressMask(mkAddr(p.A), maskOf[p.L]) }

// unPrefix normalises; raw tells whether there were host bits.
func unPrefix(p fam.Prefix) (q md.P, raw bool) {
	l := p.Length()
	if l < 0 || l > W {
		return md.P{A: unAddr(p.Address()), L: l}, true
	}
	q = md.P{A: unAddr(p.Address()), L: l}
	n := q.Norm(W)
	return n, n.A != q.A
}

func mkRange(lo, hi md.A) fam.Range {
	r, _ := fam.RangeFromAddresses(mkAddr(lo), mkAddr(hi))
	return r
}

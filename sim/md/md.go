// Package md holds the reference models: 128-bit address arithmetic, prefixes,
// interval sets and prefix maps. It shares no code with the library.
package md

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// A is an address (IPv4 addresses use the low 32 bits).
type A struct{ Hi, Lo uint64 }

func (a A) Cmp(b A) int {
	switch {
	case a.Hi < b.Hi:
		return -1
	case a.Hi > b.Hi:
		return 1
	case a.Lo < b.Lo:
		return -1
	case a.Lo > b.Lo:
		return 1
	}
	return 0
}
func (a A) Less(b A) bool { return a.Cmp(b) < 0 }
func (a A) Add(b A) A {
	lo, c := bits.Add64(a.Lo, b.Lo, 0)
	hi, _ := bits.Add64(a.Hi, b.Hi, c)
	return A{hi, lo}
}
func (a A) Sub(b A) A {
	lo, c := bits.Sub64(a.Lo, b.Lo, 0)
	hi, _ := bits.Sub64(a.Hi, b.Hi, c)
	return A{hi, lo}
}
func (a A) Inc() A    { return a.Add(A{0, 1}) }
func (a A) Dec() A    { return a.Sub(A{0, 1}) }
func (a A) And(b A) A { return A{a.Hi & b.Hi, a.Lo & b.Lo} }
func (a A) Or(b A) A  { return A{a.Hi | b.Hi, a.Lo | b.Lo} }
func (a A) Not() A    { return A{^a.Hi, ^a.Lo} }

// Pow2 is 2^n for n < 128.
func Pow2(n int) A {
	if n >= 64 {
		return A{1 << uint(n-64), 0}
	}
	return A{0, 1 << uint(n)}
}

// Low is a value with the n low bits set.
func Low(n int) A {
	if n >= 128 {
		return A{^uint64(0), ^uint64(0)}
	}
	return Pow2(n).Dec()
}

// Max is the highest address of a w-bit family.
func Max(w int) A { return Low(w) }

func (a A) Shl(n int) A {
	for ; n > 0; n-- {
		a = A{a.Hi<<1 | a.Lo>>63, a.Lo << 1}
	}
	return a
}

// P is a prefix; a normalised one has no host bits.
type P struct {
	A A   `json:"a"`
	L int `json:"l"`
}

func (p P) Norm(w int) P   { return P{p.A.And(Low(w - p.L).Not()), p.L} }
func (p P) First(w int) A  { return p.Norm(w).A }
func (p P) Last(w int) A   { return p.A.Or(Low(w - p.L)) }
func (p P) String() string { return fmt.Sprintf("%x.%016x/%d", p.A.Hi, p.A.Lo, p.L) }

// Covers tells whether p contains q.
func (p P) Covers(q P, w int) bool {
	return p.L <= q.L && p.First(w) == P{q.A, p.L}.First(w)
}

// Common is the length of the longest prefix that covers both.
func Common(p, q P, w int) int {
	x, y := p.First(w), q.First(w)
	a := A{x.Hi ^ y.Hi, x.Lo ^ y.Lo}
	n := 64 + bits.LeadingZeros64(a.Lo)
	if a.Hi != 0 {
		n = bits.LeadingZeros64(a.Hi)
	}
	n -= 128 - w
	if n > p.L {
		n = p.L
	}
	if n > q.L {
		n = q.L
	}
	return n
}

// Less is the lexicographic order of normalised prefixes.
func (p P) Less(q P) bool {
	if c := p.A.Cmp(q.A); c != 0 {
		return c < 0
	}
	return p.L < q.L
}

// Iv is an inclusive interval of addresses.
type Iv struct {
	Lo A `json:"lo"`
	Hi A `json:"hi"`
}

// Set is a sorted list of disjoint, non-adjacent intervals.
type Set []Iv

func (s Set) String() string {
	var b strings.Builder
	for _, v := range s {
		fmt.Fprintf(&b, "[%x.%x-%x.%x]", v.Lo.Hi, v.Lo.Lo, v.Hi.Hi, v.Hi.Lo)
	}
	return b.String()
}

// Mk builds a set from any intervals.
func Mk(ivs []Iv) Set {
	v := append([]Iv(nil), ivs...)
	sort.Slice(v, func(i, j int) bool { return v[i].Lo.Less(v[j].Lo) })
	var out Set
	for _, x := range v {
		if n := len(out); n > 0 {
			l := &out[n-1]
			if l.Hi == (A{^uint64(0), ^uint64(0)}) || !l.Hi.Inc().Less(x.Lo) {
				if l.Hi.Less(x.Hi) {
					l.Hi = x.Hi
				}
				continue
			}
		}
		out = append(out, x)
	}
	return out
}

func FromP(p P, w int) Set { return Set{{p.First(w), p.Last(w)}} }

func (s Set) Equal(t Set) bool {
	if len(s) != len(t) {
		return false
	}
	for i := range s {
		if s[i] != t[i] {
			return false
		}
	}
	return true
}

func (s Set) Union(t Set) Set {
	return Mk(append(append([]Iv(nil), s...), t...))
}

func (s Set) Inter(t Set) Set {
	var out Set
	i, j := 0, 0
	for i < len(s) && j < len(t) {
		lo, hi := s[i].Lo, s[i].Hi
		if lo.Less(t[j].Lo) {
			lo = t[j].Lo
		}
		if t[j].Hi.Less(hi) {
			hi = t[j].Hi
		}
		if !hi.Less(lo) {
			out = append(out, Iv{lo, hi})
		}
		if s[i].Hi.Less(t[j].Hi) {
			i++
		} else {
			j++
		}
	}
	return out
}

func (s Set) Diff(t Set) Set {
	var out Set
	j := 0
	for _, v := range s {
		lo := v.Lo
		gone := false
		for j < len(t) && t[j].Hi.Less(lo) {
			j++
		}
		for k := j; k < len(t) && !v.Hi.Less(t[k].Lo); k++ {
			if lo.Less(t[k].Lo) {
				out = append(out, Iv{lo, t[k].Lo.Dec()})
			}
			if !t[k].Hi.Less(v.Hi) {
				gone = true
				break
			}
			if lo.Less(t[k].Hi.Inc()) {
				lo = t[k].Hi.Inc()
			}
		}
		if !gone {
			out = append(out, Iv{lo, v.Hi})
		}
	}
	return out
}

func (s Set) Contains(t Set) bool { return len(t.Diff(s)) == 0 }
func (s Set) Has(a A) bool {
	for _, v := range s {
		if !a.Less(v.Lo) && !v.Hi.Less(a) {
			return true
		}
	}
	return false
}

// Prefixes is the minimal list of prefixes covering s, in order.
func (s Set) Prefixes(w int) []P {
	var out []P
	for _, v := range s {
		lo := v.Lo
		for {
			// grow the block at lo as long as it stays aligned and inside
			n := 0
			for n < w && lo.And(Low(n+1)) == (A{}) && !v.Hi.Less(lo.Or(Low(n+1))) {
				n++
			}
			out = append(out, P{lo, w - n})
			last := lo.Or(Low(n))
			if last == v.Hi {
				break
			}
			lo = last.Inc()
		}
	}
	return out
}

// Count64 is the number of addresses if it fits in 63 bits.
func (s Set) Count64() (int64, bool) {
	var n uint64
	for _, v := range s {
		d := v.Hi.Sub(v.Lo)
		if d.Hi != 0 || d.Lo >= 1<<62 {
			return 0, false
		}
		n += d.Lo + 1
		if n > 1<<62 {
			return 0, false
		}
	}
	return int64(n), true
}

// NumPrefixes counts the prefixes of length l inside the minimal prefixes of
// s; over is true if the count exceeds 64 bits.
func (s Set) NumPrefixes(w, l int) (n uint64, over bool) {
	for _, p := range s.Prefixes(w) {
		if l < p.L {
			continue
		}
		d := l - p.L
		if d > 63 {
			return 0, true
		}
		c := uint64(1) << uint(d)
		if n+c < n {
			return 0, true
		}
		n += c
	}
	return n, false
}

// E is an entry of a table.
type E struct {
	P P   `json:"p"`
	V int `json:"v"`
}

// T is a table: entries with normalised prefixes in lexicographic order.
type T []E

// Table makes a table of entries in any order; later ones win.
func Table(es []E, w int) T {
	v := make(T, len(es))
	for i, e := range es {
		v[i] = E{e.P.Norm(w), e.V}
	}
	sort.SliceStable(v, func(i, j int) bool { return v[i].P.Less(v[j].P) })
	out := v[:0]
	for _, e := range v {
		if n := len(out); n > 0 && out[n-1].P == e.P {
			out[n-1] = e
		} else {
			out = append(out, e)
		}
	}
	return out
}

func (t T) find(p P) (int, bool) {
	i := sort.Search(len(t), func(i int) bool { return !t[i].P.Less(p) })
	return i, i < len(t) && t[i].P == p
}

func (t T) Get(p P) (int, bool) {
	if i, ok := t.find(p); ok {
		return t[i].V, true
	}
	return 0, false
}

// LPM is the longest entry containing p.
func (t T) LPM(p P, w int) (E, bool) {
	for l := p.L; l >= 0; l-- {
		if i, ok := t.find(P{p.A, l}.Norm(w)); ok {
			return t[i], true
		}
	}
	return E{}, false
}

// Seg is a run of addresses, up to the next segment, with the same longest match value.
type Seg struct {
	Lo A
	V  int
	OK bool
}

// Segments tells the value of the longest match for every address, and for
// each entry the index of its nearest enclosing entry (or -1).
func (t T) Segments(w int) (segs []Seg, up []int) {
	put := func(lo A, v int, ok bool) {
		if n := len(segs); n > 0 && segs[n-1].Lo == lo {
			segs = segs[:n-1]
		}
		if n := len(segs); n > 0 && segs[n-1].OK == ok && (!ok || segs[n-1].V == v) {
			return
		}
		segs = append(segs, Seg{lo, v, ok})
	}
	put(A{}, 0, false)
	var stack []int
	pop := func() {
		e := t[stack[len(stack)-1]]
		stack = stack[:len(stack)-1]
		last := e.P.Last(w)
		if last == Max(w) {
			return
		}
		if n := len(stack); n > 0 {
			put(last.Inc(), t[stack[n-1]].V, true)
		} else {
			put(last.Inc(), 0, false)
		}
	}
	for i, e := range t {
		for len(stack) > 0 && !t[stack[len(stack)-1]].P.Covers(e.P, w) {
			pop()
		}
		u := -1
		if n := len(stack); n > 0 {
			u = stack[n-1]
		}
		up = append(up, u)
		stack = append(stack, i)
		put(e.P.First(w), e.V, true)
	}
	for len(stack) > 0 {
		pop()
	}
	return segs, up
}

// Set returns a copy of t with p mapped to v.
func (t T) Set(p P, v int) T {
	i, ok := t.find(p)
	if ok {
		if t[i].V == v {
			return t
		}
		out := append(T(nil), t...)
		out[i].V = v
		return out
	}
	out := make(T, 0, len(t)+1)
	out = append(out, t[:i]...)
	out = append(out, E{p, v})
	return append(out, t[i:]...)
}

func (t T) Del(p P) T {
	i, ok := t.find(p)
	if !ok {
		return t
	}
	out := make(T, 0, len(t)-1)
	out = append(out, t[:i]...)
	return append(out, t[i+1:]...)
}

func (t T) Equal(u T) bool {
	if len(t) != len(u) {
		return false
	}
	for i := range t {
		if t[i] != u[i] {
			return false
		}
	}
	return true
}

func (t T) String() string {
	var b strings.Builder
	for i, e := range t {
		if i > 40 {
			fmt.Fprintf(&b, "... (%d entries)", len(t))
			break
		}
		fmt.Fprintf(&b, "%v=%d ", e.P, e.V)
	}
	return b.String()
}

// Hash is a 64-bit digest.
func (t T) Hash() uint64 {
	h := uint64(14695981039346656037)
	for _, e := range t {
		for _, x := range [...]uint64{e.P.A.Hi, e.P.A.Lo, uint64(e.P.L), uint64(e.V)} {
			h = (h ^ x) * 1099511628211
			h ^= h >> 31
		}
	}
	return h
}

func (s Set) Hash() uint64 {
	h := uint64(14695981039346656037)
	for _, e := range s {
		for _, x := range [...]uint64{e.Lo.Hi, e.Lo.Lo, e.Hi.Hi, e.Hi.Lo} {
			h = (h ^ x) * 1099511628211
			h ^= h >> 31
		}
	}
	return h
}

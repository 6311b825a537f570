package sc

import (
	"sort"

	"verifsim/md"
)

// PropOf is the property that speaks about an operation's result.
func PropOf(k string) string {
	switch k {
	case IDiff:
		return "C06"
	case IAgg:
		return "C07"
	case IMap:
		return "C08"
	case IBuild, SBuild:
		return "C10"
	case IWalk, SWalkP, SWalkR, SWalkA:
		return "C05"
	case IClone, SClone:
		return "C04"
	case SStr, SNumP:
		return "C12"
	case SFind:
		return "C15"
	case VCall, VAgain:
		return "C26"
	case OZeroS, OZeroT:
		return "C16"
	}
	switch k[0] {
	case 't', 'i':
		return "C01"
	case 'm':
		return "C02"
	}
	return "C13"
}

// NValue is the number of calls that VCall knows.
const NValue = 47

// Key is the network a prefix argument stands for.
func Key(o *Op, w int) md.P {
	switch o.PF {
	case "nil":
		return md.P{}
	case "addr":
		return md.P{A: o.P.A, L: w}
	}
	return o.P.Norm(w)
}

// Few marks mappers which leave almost all values alone.
const Few = 128

// MapVal is the mapper number m.
func MapVal(m int, p md.P, v int) int {
	if m&Few != 0 { // changes one entry of 256
		if h := Mix(p.A.Hi, p.A.Lo, uint64(p.L)); int(h&255) == m>>8&255 {
			return (v + 1) % 4
		}
		return v
	}
	switch m & 3 {
	case 0:
		return v
	case 1:
		return (v + 1) % 4
	case 2:
		return 1
	}
	return (int(p.A.Lo>>uint(m>>2&7)) + p.L + v) & 3
}

func SortRecs(r []*Rec) {
	sort.SliceStable(r, func(i, j int) bool { return r[i].Inv < r[j].Inv })
}

// Digest summarises the visible outcome of an operation.
func (r *Rec) Digest() uint64 {
	h := uint64(14695981039346656037)
	m := func(x uint64) { h = (h ^ x) * 1099511628211; h ^= h >> 29 }
	for _, c := range []byte(r.St) {
		m(uint64(c))
	}
	if r.OK {
		m(1)
	}
	m(uint64(r.V))
	m(uint64(r.N))
	for _, c := range []byte(r.Str) {
		m(uint64(c))
	}
	m(r.P.A.Hi)
	m(r.P.A.Lo)
	m(uint64(r.P.L))
	for _, e := range r.Evs {
		m(e.P.A.Hi ^ e.P.A.Lo<<1 ^ uint64(e.P.L)<<7 ^ uint64(e.V)<<3 ^ uint64(e.W))
	}
	if r.X != nil {
		m(r.X.Hash())
	}
	return h
}

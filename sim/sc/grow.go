package sc

import "verifsim/md"

// Deep counts the entries and the different lengths at which they part from p.
func (c Content) Deep(p md.P, w int) (n, deep int) {
	var at [130]bool
	see := func(q md.P) {
		n++
		l := md.Common(p, q, w)
		if !at[l] {
			at[l] = true
			deep++
		}
	}
	for _, e := range c.T {
		see(e.P)
	}
	for _, q := range c.Raw {
		see(q)
		if q.L < p.L && q.Covers(p, w) {
			deep += p.L - q.L // a hole in q leaves that many pieces
		}
	}
	return n, deep
}

// Cal collects the largest costs seen, per kind of operation.
var Cal map[string][4]float64

// FewSteps are always allowed.
const FewSteps = 1500

// StepLimit is the number of steps allowed for an operation which goes to a
// prefix that the entries part from at unit-2 places; 0 if there is none.
func StepLimit(k string, unit, w int) uint64 {
	steps := 0
	switch k {
	case TIns, TUpd, TIou, TGoi, TDel, MIns:
		steps = 320
	case MRem:
		steps = 680
	case TGet, TLpm, TNum, IGet, ILpm, INum:
		steps = 140
	default:
		return 0
	}
	return uint64(40*(w+2) + steps*unit)
}

func (c *checker) grow(r *Rec) {
	if r.Parent != nil || r.St == Budget || r.St == Pending || r.St == Skipped || r.Hit || r.Sw0 != r.Sw1 {
		return
	}
	o := r.Op
	if o.Arg != nil && (o.Arg.Wrap || o.Arg.Form != "pfx" && o.Arg.Form != "addr") {
		return
	}
	if r.Entries >= 200000 {
		return // more than were looked at
	}
	unit := r.Deep + 2
	if Cal != nil {
		x := Cal[o.K]
		for i, n := range []int{int(r.Steps), r.Fresh, r.FreshB, r.Entries} {
			x[i] = max(x[i], float64(n)/float64(unit))
		}
		Cal[o.K] = x
	}
	blocks, bytes := 0, 0
	switch o.K {
	case TIns, TUpd, TIou, TGoi, TDel, MIns, MRem:
		blocks, bytes = 4, 400
	case TGet, TLpm, TNum, IGet, ILpm, INum:
	case TSnap, MSnap, IClone, SClone:
		// whatever the contents
		if r.Steps > 300 {
			c.bad("C25", "steps", r, "steps "+o.K, "takes %d steps with %d entries", r.Steps, r.Entries)
		}
		if r.Fresh > 16 || r.FreshB > 2000 {
			c.bad("C25", "memory", r, "memory "+o.K, "takes %d new blocks of memory (%d bytes) with %d entries", r.Fresh, r.FreshB, r.Entries)
		}
		return
	default:
		return
	}
	c.st.Grown++
	if lim := StepLimit(o.K, unit, c.w); r.Steps > lim {
		c.bad("C25", "steps", r, "steps "+o.K, "takes %d steps with %d entries, which part from its prefix at %d places (allowed: %d)", r.Steps, r.Entries, r.Deep, lim)
	}
	if b := 16 + blocks*unit; r.Fresh > b || r.FreshB > 4096+bytes*unit {
		c.bad("C25", "memory", r, "memory "+o.K, "the new version has %d blocks of memory (%d bytes) of its own, with %d entries, which part from its prefix at %d places (allowed: %d)", r.Fresh, r.FreshB, r.Entries, r.Deep, b)
	}
}

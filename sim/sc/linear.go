package sc

import "verifsim/md"

// WholeOps are the operations that look at whole objects.
var WholeOps = []string{IWalk, IDiff, IAgg, IMap, SWalkP, SWalkR, SWalkA, SStr, SNumP, SEq, SHas, SCnt, SUni, SInt, SDif, SFind, MUni, MInt, MDif, MHas, MIns, MRem}

// upto counts the prefixes which do not come after q in a walk.
func upto(t []md.P, q md.P, w int) (n int) {
	for _, p := range t {
		if c := p.First(w).Cmp(q.A); c < 0 || c == 0 && p.L <= q.L {
			n++
		}
	}
	return n
}

func keys(t md.T) (ps []md.P) {
	for _, e := range t {
		ps = append(ps, e.P)
	}
	return ps
}

// visited is the number of entries that an operation had to look at, and the
// steps allowed for each; -1 if it is not one of them or not known.
func (c *checker) visited(r *Rec) (n, steps int) {
	o := r.Op
	set := 0
	if r.SX != nil {
		set = len(r.SX.Raw)
	}
	last := md.P{}
	if len(r.Evs) > 0 {
		last = r.Evs[len(r.Evs)-1].P
	}
	stopped := !r.OK
	switch o.K {
	case IWalk:
		return len(r.Evs), 200
	case IDiff:
		if r.SX2 == nil {
			return -1, 0
		}
		if !stopped {
			return len(r.SX.T) + len(r.SX2.T), 250
		}
		return upto(keys(r.SX.T), last, c.w) + upto(keys(r.SX2.T), last, c.w), 250
	case IAgg:
		return len(r.SX.T), 700
	case IMap:
		return len(r.SX.T), 300
	case SWalkP:
		return len(r.Evs), 200
	case SWalkR, SWalkA:
		steps = 450
		if o.K == SWalkA {
			steps = 130
		}
		if !stopped {
			return set + len(r.Evs), steps
		}
		last.L = c.w
		return upto(r.SX.Raw, last, c.w) + len(r.Evs), steps
	case SStr, SNumP:
		return set, 230
	case SCnt:
		return set, 60
	case SEq:
		if r.SX2 == nil {
			return -1, 0
		}
		return set + len(r.SX2.Raw), 60
	case SHas, SUni, SInt, SDif, SFind, MUni, MInt, MDif, MHas, MIns, MRem:
		x, a := r.Before, r.Arg
		if r.SX != nil {
			x = r.SX
		}
		if x == nil || a == nil || !a.HasX || o.Arg != nil && o.Arg.Wrap {
			return -1, 0
		}
		// the entries of both, and the pieces they leave of each other
		for _, y := range []md.Set{x.S, a.X, x.S.Diff(a.X), a.X.Diff(x.S)} {
			n += len(y.Prefixes(c.w))
		}
		if o.K == SInt || o.K == MInt {
			return n, 600 + 100*c.w // each entry of one down the whole of the other
		}
		return n, 700
	}
	return -1, 0
}

func (c *checker) linear(r *Rec) {
	if r.Parent != nil || r.St != OK && r.St != Budget || r.Hit {
		return
	}
	if r.SX == nil && (r.Op.K[0] != 'm' || r.Sw0 != r.Sw1) {
		return
	}
	n, steps := c.visited(r)
	if n < 0 {
		return
	}
	if Cal != nil {
		x := Cal[r.Op.K]
		x[0] = max(x[0], (float64(r.Steps)-float64(steps*n)/4)/float64(c.w))
		if n >= 300 {
			x[1] = max(x[1], float64(r.Steps)/float64(n))
		}
		if n <= 3 {
			x[2] = max(x[2], float64(r.Steps))
		}
		if r.Sw0 == r.Sw1 {
			x[3] = max(x[3], (float64(r.Alloc)-16384)/float64(n+c.w))
		}
		Cal[r.Op.K] = x
		return
	}
	c.st.Grown++
	if lim := uint64(FewSteps + 60*c.w + steps*n); r.Steps > lim {
		c.bad("C28", "steps", r, "steps "+r.Op.K, "takes %d steps for %d entries (allowed: %d)", r.Steps, n, lim)
	}
	if r.Sw0 != r.Sw1 || r.Op.K == SInt {
		return
	}
	if lim := uint64(65536 + 3200*(n+c.w)); r.Alloc > lim {
		c.bad("C28", "memory", r, "memory "+r.Op.K, "allocates %d bytes for %d entries (allowed: %d)", r.Alloc, n, lim)
	}
}

package sc

import (
	"verifsim/md"
)

// prof is what a property's runs look like.
type prof struct {
	thr     [2]int // client threads
	ops     [2]int // operations per thread
	deep    int    // percent of runs that are one thread with a long history
	deepOps [2]int
	tabs    [2]int
	sets    [2]int
	w       [][]wt
	mul     []int
	fault   int // percent of operations with a fault in caller code
	reent   int // percent of these that re-enter
	wild    int // percent of runs in which threads use each other's objects
	locked  int // percent of objects written by several threads under an outside lock
	multi   int // percent of runs with conflicting writers
	frame   bool
	use     bool
	copies  int
	vmax    [2]int
	kinds   []int // value kinds
	ents    [2]int
	abandon int // percent of runs in which threads may be suspended for ever
	custom  int // percent of runs with a custom comparator
	big     int // percent of runs with large initial tables
	iso     bool
	hist    bool
	grow    bool
	walk    bool
	huge    int // one run in this many starts from more than 65536 entries
}

func one(k string, n int) []wt { return []wt{{k, n}} }

func (p *prof) add(mul int, ws ...[]wt) {
	for _, w := range ws {
		p.w = append(p.w, w)
		p.mul = append(p.mul, mul)
	}
}

func profile(prop string) *prof {
	p := &prof{thr: [2]int{1, 4}, ops: [2]int{3, 12}, deep: 20, deepOps: [2]int{12, 45}, tabs: [2]int{1, 2}, sets: [2]int{1, 2},
		wild: 30, copies: 2, vmax: [2]int{2, 4}, ents: [2]int{0, 14}, abandon: 25, custom: 35, fault: 3, reent: 40, big: 5}
	notabs := func() { p.tabs = [2]int{0, 0} }
	nosets := func() { p.sets = [2]int{0, 0} }
	switch prop {
	case "C01", "C02", "C05", "C06", "C12", "C15":
		p.huge = 25000
	case "C07", "C08", "C13":
		p.huge = 10000
	case "C04", "C09":
		p.huge = 5000
	case "C10", "C16":
		p.huge = 3000
	}
	switch prop {
	case "C01":
		nosets()
		p.locked = 25
		p.add(5, tWrite)
		p.add(6, tRead)
		p.add(1, one(IGet, 4), one(ILpm, 4), one(INum, 2), one(IClone, 2), one(IAgg, 1), one(IBuild, 2))
		p.big = 12
	case "C02":
		notabs()
		p.locked = 25
		p.add(5, mWrite)
		p.add(5, mRead)
		p.add(1, one(SClone, 2), one(SUni, 2), one(SDif, 2), one(SBuild, 2), one(OFix, 2))
	case "C03":
		p.multi = 100
		p.thr = [2]int{2, 4}
		p.ops = [2]int{2, 9}
		p.deep = 0
		p.tabs = [2]int{0, 1}
		p.sets = [2]int{0, 1}
		p.add(8, tWrite, mWrite)
		p.add(2, one(TGet, 2), one(TNum, 1), one(TSnap, 2), one(MHas, 2), one(MSnap, 2), one(TLpm, 2))
		p.fault = 6
		p.reent = 70
		p.ents = [2]int{0, 8}
		p.abandon = 30
		p.wild = 0
	case "C04":
		p.frame = true
		p.ops = [2]int{3, 10}
		p.locked = 10
		p.wild = 50
		p.add(3, tWrite, mWrite)
		p.add(2, one(TSnap, 8), one(MSnap, 8))
		p.add(2, iRead, sRead)
		p.add(2, one(IClone, 4), one(SClone, 4), one(MUni, 2), one(MInt, 2), one(MDif, 2))
		p.fault = 8
	case "C05":
		p.add(3, one(IWalk, 18), one(SWalkP, 9), one(SWalkR, 9), one(SWalkA, 9))
		p.add(2, tWrite, mWrite)
		p.add(2, one(TSnap, 8), one(MSnap, 8))
		p.add(1, one(IAgg, 3), one(IMap, 3), one(SUni, 3), one(SInt, 3), one(SDif, 3), one(IBuild, 1), one(SBuild, 1), one(OFix, 2))
		p.fault = 22
		p.reent = 70
		p.ents = [2]int{0, 20}
	case "C06":
		nosets()
		p.thr = [2]int{1, 3}
		p.add(2, one(IDiff, 40))
		p.add(2, tWrite, one(TSnap, 18))
		p.add(1, one(IClone, 6), one(IBuild, 5), one(IMap, 5), one(IAgg, 5))
		p.fault = 10
		p.ents = [2]int{0, 22}
		p.vmax = [2]int{2, 3}
		p.custom = 50
		p.deep = 45
	case "C07":
		nosets()
		p.thr = [2]int{1, 3}
		p.add(2, one(IAgg, 30))
		p.add(2, tWrite, one(TSnap, 16))
		p.add(1, one(IMap, 8), one(IBuild, 4), one(IClone, 4), one(IDiff, 4))
		p.vmax = [2]int{1, 3}
		p.ents = [2]int{2, 24}
		p.use = true
		p.custom = 50
		p.deep = 45
	case "C08":
		nosets()
		p.thr = [2]int{1, 3}
		p.add(2, one(IMap, 30))
		p.add(2, tWrite, one(TSnap, 14))
		p.add(1, one(IAgg, 5), one(IBuild, 4), one(IClone, 4), one(IDiff, 5))
		p.use = true
		p.ents = [2]int{0, 20}
		p.custom = 55
		p.fault = 10
		p.reent = 50
	case "C09":
		p.frame = true
		p.fault = 45
		p.reent = 20
		p.custom = 80
		p.locked = 10
		p.multi = 15
		p.ops = [2]int{3, 9}
		p.add(4, tWrite, mWrite)
		p.add(2, one(TSnap, 8), one(MSnap, 8), one(TGet, 3), one(MHas, 4), one(TLpm, 3), one(TNum, 2), one(MUni, 3), one(MInt, 3), one(MDif, 3))
		p.add(3, iRead, sRead)
	case "C10":
		p.frame = true
		p.ops = [2]int{3, 9}
		p.add(3, one(IBuild, 30), one(SBuild, 30))
		p.add(2, one(TSnap, 10), one(MSnap, 10), tWrite, mWrite)
		p.add(1, one(IClone, 4), one(SClone, 4), one(IDiff, 3), one(SEq, 3), one(IMap, 2), one(IAgg, 2))
		p.fault = 15
		p.wild = 60
		p.use = true
	case "C11":
		p.thr = [2]int{2, 4}
		p.ops = [2]int{3, 9}
		p.deep = 0
		p.add(5, tWrite, mWrite)
		p.add(4, tRead, mRead)
		p.add(3, iRead, sRead)
		p.wild = 70
		p.abandon = 0
		p.fault = 4
		p.locked = 10
		p.ents = [2]int{0, 10}
	case "C12":
		notabs()
		p.thr = [2]int{1, 3}
		p.add(4, mWrite)
		p.add(3, one(MSnap, 10), one(SUni, 6), one(SInt, 6), one(SDif, 6), one(OFix, 10), one(MUni, 3), one(MInt, 3), one(MDif, 3))
		p.add(3, one(SStr, 6), one(SNumP, 8), one(SEq, 8), one(SWalkP, 4), one(SBuild, 3), one(SClone, 3))
		p.deep = 50
	case "C13":
		notabs()
		p.thr = [2]int{1, 3}
		p.add(2, mWrite, one(MSnap, 10))
		p.add(4, one(SUni, 8), one(SInt, 8), one(SDif, 8), one(SHas, 6), one(SEq, 6), one(SCnt, 4), one(SEmpty, 2), one(OHas, 8), one(OFix, 8))
		p.add(1, one(SClone, 4), one(SBuild, 4), one(MUni, 3), one(MInt, 3), one(MDif, 3))
		p.frame = true
		p.deep = 45
		p.wild = 60
	case "C14":
		p.deep = 0
		p.fault = 0
	case "C15":
		notabs()
		p.thr = [2]int{1, 3}
		p.add(3, one(SFind, 30))
		p.add(2, mWrite, one(MSnap, 14))
		p.add(1, one(SUni, 4), one(SInt, 3), one(SDif, 5), one(OFix, 6), one(SBuild, 2))
		p.deep = 45
		p.wild = 60
		p.fault = 8
	case "C16":
		p.frame = true
		p.copies = 4
		p.ops = [2]int{3, 10}
		p.add(3, tWrite, mWrite, tRead, mRead)
		p.add(2, one(OZeroT, 20), one(OZeroS, 20), one(IClone, 4), one(SClone, 4), one(IBuild, 3), one(SBuild, 3))
		p.locked = 40
		p.wild = 40
	case "C24":
		p.thr = [2]int{1, 3}
		p.ops = [2]int{4, 16}
		p.deep = 70
		p.deepOps = [2]int{20, 200}
		p.tabs = [2]int{0, 2}
		p.sets = [2]int{0, 2}
		p.add(6, tWrite, mWrite)
		p.add(2, one(TSnap, 4), one(MSnap, 4), one(TLpm, 1), one(MHas, 1))
		p.add(1, one(IClone, 3), one(SClone, 3), one(IAgg, 3), one(IMap, 3), one(IBuild, 3), one(SBuild, 3), one(SUni, 3), one(SInt, 3), one(SDif, 3), one(IDiff, 1), one(OFix, 1), one(SFind, 1))
		p.fault = 8
		p.custom = 60
		p.ents = [2]int{0, 10}
		p.hist = true
		p.huge = 100000
	case "C25":
		p.thr = [2]int{1, 3}
		p.ops = [2]int{4, 12}
		p.deep = 40
		p.deepOps = [2]int{8, 30}
		p.tabs = [2]int{0, 1}
		p.sets = [2]int{0, 1}
		p.add(5, tWrite, mWrite)
		p.add(3, tRead, mRead)
		p.add(2, one(TSnap, 6), one(MSnap, 6), one(IClone, 6), one(SClone, 6), one(IGet, 3), one(ILpm, 3), one(INum, 3), one(SHas, 3), one(SCnt, 3), one(SEmpty, 1))
		p.add(1, one(IBuild, 2), one(SBuild, 2), one(IAgg, 2), one(SDif, 2))
		p.fault = 4
		p.grow = true
	case "C28":
		p.thr = [2]int{1, 3}
		p.ops = [2]int{4, 12}
		p.deep = 50
		p.deepOps = [2]int{8, 30}
		p.tabs = [2]int{0, 2}
		p.sets = [2]int{0, 2}
		p.add(2, tWrite, mWrite)
		p.add(2, one(TSnap, 8), one(MSnap, 8), one(MHas, 4), one(MUni, 4), one(MInt, 4), one(MDif, 4))
		p.add(5, iRead, sRead)
		p.add(2, one(IAgg, 5), one(IMap, 3), one(IDiff, 6), one(SUni, 5), one(SInt, 5), one(SDif, 5), one(SFind, 3), one(OFix, 1))
		p.fault = 4
		p.big = 30
		p.walk = true
	case "C27":
		p.thr = [2]int{1, 3}
		p.ops = [2]int{3, 9}
		p.fault = 35
		p.reent = 25
		p.custom = 80
		p.abandon = 0
		p.big = 12
		p.add(2, tWrite, mWrite)
		p.add(2, one(TSnap, 8), one(MSnap, 8), one(MHas, 2), one(MUni, 2), one(MInt, 2), one(MDif, 2))
		p.add(5, iRead, sRead)
		p.add(2, one(IAgg, 4), one(IMap, 4), one(IDiff, 4), one(IBuild, 3), one(SBuild, 3))
		p.huge = 2000
	case "C23":
		p.iso = true
		p.thr = [2]int{2, 4}
		p.ops = [2]int{3, 10}
		p.deep = 0
		p.wild = 0
		p.tabs = [2]int{0, 4}
		p.sets = [2]int{0, 4}
		p.add(3, tWrite, mWrite)
		p.add(2, tRead, mRead)
		p.add(2, iRead, sRead)
		p.fault = 8
		p.abandon = 40
	}
	return p
}

// Generate makes the run of a property that a seed stands for.
func Generate(prop string, seed uint64) (*Script, Sched) {
	g := &gen{Rng: NewRng(Mix(seed, 77)), prop: prop, maker: map[int]int{}}
	p := profile(prop)
	s := &Script{Prop: prop, Seed: seed, Fam: 4}
	if g.P(50) {
		s.Fam = 6
	}
	g.s = s
	g.w = s.W()
	var sd Sched
	switch prop {
	case "C14":
		if Mix(seed, 98)%12 == 0 {
			sd = g.crowd(p)
			break
		}
		sd = g.stalls()
	case "C17":
		sd = g.cost()
	case "C26":
		sd = g.values()
	default:
		if (prop == "C01" || prop == "C02" || prop == "C03") && Mix(seed, 99)%300 == 0 {
			sd = g.burst(p)
			break
		}
		if prop == "C23" && Mix(seed, 98)%25 == 0 {
			sd = g.crowd(p)
			break
		}
		g.common(p)
		sd = g.sched(p)
	}
	for i := range s.Tabs {
		s.Tabs[i].Zero = Mix(seed, 311, uint64(i))%6 == 0
	}
	for i := range s.Sets {
		s.Sets[i].Zero = Mix(seed, 312, uint64(i))%6 == 0
	}
	for len(s.Univ) < 16 {
		s.Univ = append(s.Univ, g.pfx())
	}
	return s, sd
}

// world sets up address clusters, values and initial objects.
func (g *gen) world(p *prof) {
	s := g.s
	for n := g.Range(1, 3); n > 0; n-- {
		g.clus = append(g.clus, g.cluster())
	}
	if len(g.clus) > 1 && g.P(40) {
		// nest a cluster in another
		a, b := g.clus[0], &g.clus[1]
		if a.top+a.bits+b.bits <= g.w {
			k := g.Range(0, a.bits)
			b.top = g.Range(a.top+k, g.w-b.bits)
			x := md.A{Hi: g.U(), Lo: g.U()}.And(md.Low(g.w - a.top))
			b.base = md.P{A: a.base.Or(x), L: b.top}.First(g.w)
		}
	}
	g.vmax = g.Range(p.vmax[0], p.vmax[1])
	if g.P(p.custom) {
		s.Val = []int{2, 3, 5}[g.N(3)]
	} else {
		s.Val = []int{0, 0, 1, 4, 6}[g.N(5)]
	}
	s.Copies = 1
	if p.copies > 1 {
		s.Copies = g.Range(1, p.copies)
	}
	nt, ns := g.Range(p.tabs[0], p.tabs[1]), g.Range(p.sets[0], p.sets[1])
	if nt+ns == 0 {
		if p.sets[1] > 0 && (p.tabs[1] == 0 || g.P(50)) {
			ns = 1
		} else {
			nt = 1
		}
	}
	big := g.P(p.big)
	switch {
	case p.huge > 0 && g.N(p.huge) == 0:
		g.scale = 3
	case p.huge > 0 && g.N(800) == 0:
		g.scale = 2
	case p.grow && g.P(65), p.walk && g.P(25):
		g.scale = 2
	}
	if g.scale > 0 {
		n := g.Range(300, 3000)
		if p.grow {
			n = g.Range(2000, 9000)
		}
		if p.walk {
			n = g.Range(50, 1500)
			if g.P(10) {
				n = g.Range(1500, 6000)
			}
			if g.N(150) == 0 {
				n = g.Range(10000, 30000)
			}
		}
		if g.scale == 3 {
			n = 66000 + g.N(4000)
			nt, ns = min(nt, 1), min(ns, 1)
		}
		g.mkBulk(n)
	} else if g.P(4) || (p.grow || p.walk) && g.P(60) {
		g.mkChain()
	}
	for i := 0; i < nt; i++ {
		var ti TabInit
		n := g.Range(p.ents[0], p.ents[1])
		if g.P(20) {
			n = 0
		}
		if len(g.bulk) > 0 {
			m := g.Range(1, g.vmax)
			for _, q := range g.bulk {
				ti.E = append(ti.E, md.E{P: q, V: g.N(m)})
			}
		} else if big {
			n = g.Range(40, 200)
		}
		for ; n > 0; n-- {
			q := g.pfx()
			if big && g.P(40) {
				l := g.N(g.w + 1)
				q = md.P{A: md.A{Hi: g.U(), Lo: g.U()}.And(md.Max(g.w)), L: l}
			}
			ti.E = append(ti.E, md.E{P: q, V: g.val()})
		}
		if g.P(40) {
			for n := g.N(5); n > 0; n-- {
				ti.Warm = append(ti.Warm, g.netPfx())
			}
		}
		s.Tabs = append(s.Tabs, ti)
		g.tabs = append(g.tabs, len(g.owner))
		g.owner = append(g.owner, 0)
	}
	for i := 0; i < ns; i++ {
		var si SetInit
		n := g.Range(p.ents[0], p.ents[1]) * 2 / 3
		if g.P(20) {
			n = 0
		}
		if len(g.bulk) > 0 {
			l := g.bulk
			if len(g.bulkS) > 0 {
				l = g.bulkS
			}
			for _, q := range l {
				si.Ins = append(si.Ins, &Arg{Form: "pfx", P: q})
			}
		}
		for ; n > 0; n-- {
			si.Ins = append(si.Ins, g.plainArg())
		}
		s.Sets = append(s.Sets, si)
		g.sets = append(g.sets, len(g.owner))
		g.owner = append(g.owner, 0)
	}
	s.NH = nt + ns
}

// mkBulk draws the prefixes of a large initial table or set.
func (g *gen) mkBulk(n int) {
	w := g.w
	base := md.A{Hi: g.U(), Lo: g.U()}.And(md.Max(w))
	top := g.Range(0, w-24)
	inside := func(a md.A, from int) md.A { // a within the base prefix of that length
		return md.P{A: base, L: from}.First(w).Or(a.And(md.Low(w - from)))
	}
	shape := g.N(5)
	step := uint64(g.Range(1, 2))
	for i := 0; i < n; i++ {
		r := md.A{Hi: g.U(), Lo: g.U()}.And(md.Max(w))
		var q md.P
		switch shape {
		case 0: // neighbours of one length
			q = md.P{A: inside(md.A{Lo: uint64(i) * step}.Shl(w-top-20), top), L: top + 20}
		case 1: // single addresses, not adjacent
			q = md.P{A: inside(md.A{Lo: uint64(i) * 2}, w-20), L: w}
		case 2: // anywhere
			q = md.P{A: r, L: g.Range(12, w)}
		case 3: // dense, of many lengths
			q = md.P{A: inside(r, top), L: top + g.Range(8, 24)}
		case 4: // half and half
			if i%2 == 0 {
				q = md.P{A: r, L: g.Range(8, w)}
			} else {
				q = md.P{A: inside(md.A{Lo: uint64(i)}.Shl(w-top-22), top), L: top + 22}
			}
		}
		g.bulk = append(g.bulk, q.Norm(w))
	}
	if g.P(50) {
		for i := range g.bulk {
			j := g.N(i + 1)
			g.bulk[i], g.bulk[j] = g.bulk[j], g.bulk[i]
		}
	}
}

// mkChain draws the prefixes of an initial table or set which is as deep as it
// can be: for a table, prefixes of one address of (almost) every length; for a
// set, (almost) every block next to the path to it.
func (g *gen) mkChain() {
	w := g.w
	a := md.A{Hi: g.U(), Lo: g.U()}.And(md.Max(w))
	switch g.N(4) {
	case 0:
		a = md.A{}
	case 1:
		a = md.Max(w)
	}
	full := []int{100, 100, 85}[g.N(3)]
	side := []int{0, 0, 30, 100}[g.N(4)]
	for l := 0; l <= w; l++ {
		q := md.P{A: a, L: l}.Norm(w)
		if g.P(full) {
			g.bulk = append(g.bulk, q)
		}
		if l == 0 {
			continue
		}
		bit := md.A{Lo: 1}.Shl(w - l)
		sib := md.P{A: md.A{Hi: q.A.Hi ^ bit.Hi, Lo: q.A.Lo ^ bit.Lo}, L: l}
		if g.P(side) {
			g.bulk = append(g.bulk, sib)
		}
		if g.P(full) {
			g.bulkS = append(g.bulkS, sib)
		}
	}
	if g.P(70) {
		for _, b := range [][]md.P{g.bulk, g.bulkS} {
			for i := range b {
				j := g.N(i + 1)
				b[i], b[j] = b[j], b[i]
			}
		}
	}
}

func (g *gen) common(p *prof) {
	s := g.s
	g.world(p)
	s.Frame = p.frame
	s.Use = p.use
	s.Iso = p.iso
	s.Hist, s.Grow, s.Whole = p.hist, p.grow, p.walk
	nthr, nops := g.Range(p.thr[0], p.thr[1]), g.Range(p.ops[0], p.ops[1])
	deep := g.P(p.deep)
	if deep {
		nthr, nops = 1, g.Range(p.deepOps[0], p.deepOps[1])
		if p.frame {
			nops = nops*2/3 + 1
		}
	}
	if g.scale == 3 {
		nthr, nops = g.Range(1, 2), g.Range(3, 8)
		s.Frame, s.Use = false, false
	}
	s.Multi = nthr > 1 && g.P(p.multi)
	g.wild = nthr > 1 && g.P(p.wild)
	for i := range g.owner {
		switch {
		case s.Multi:
			g.owner[i] = anybody
		case nthr > 1 && g.P(p.locked):
			g.owner[i] = locked
		default:
			g.owner[i] = g.N(nthr)
		}
	}
	// swarm: a random subset of the operation mix, at random strengths
	var ws []wt
	for i, l := range p.w {
		for _, w := range l {
			n := w.n * p.mul[i]
			switch g.N(6) {
			case 0:
				n = n / 4
			case 1:
				n = n * 3
			}
			if n > 0 && g.usable(w.k, p) {
				ws = append(ws, wt{w.k, n})
			}
		}
	}
	if len(ws) == 0 {
		ws = append(ws, tWrite...)
		ws = append(ws, mWrite...)
	}
	for i := 0; i < nthr; i++ {
		g.th = append(g.th, &gthr{id: i})
		s.Threads = append(s.Threads, nil)
		if s.Iso {
			g.th[i].tslots = append(g.th[i].tslots, g.tabs...)
			g.th[i].sslots = append(g.th[i].sslots, g.sets...)
		}
	}
	if s.Iso {
		s.NS = s.NH
	}
	if p.fault > 0 && g.P(35) && g.prop != "C09" {
		g.faultP = 0 // fault-free runs, too
	} else {
		g.faultP = p.fault
	}
	for i := 0; i < nops; i++ {
		for t := range g.th {
			g.cur = g.th[t]
			if i == 0 && g.P(70) {
				for _, h := range g.tabs {
					if g.P(60) && (!s.Iso || g.canWrite(h)) {
						if o := g.op(TSnap); o != nil {
							o.H = h
							s.Threads[t] = append(s.Threads[t], o)
						}
					}
				}
				for _, h := range g.sets {
					if g.P(60) && (!s.Iso || g.canWrite(h)) {
						if o := g.op(MSnap); o != nil {
							o.H = h
							s.Threads[t] = append(s.Threads[t], o)
						}
					}
				}
			}
			o := g.top(g.weighted(ws))
			if o == nil {
				k := TSnap
				if len(g.tabs) == 0 || len(g.sets) > 0 && g.P(50) {
					k = MSnap
				}
				o = g.top(k)
			}
			if o == nil {
				continue
			}
			g.fault(o, p)
			if p.grow && o.Arg != nil && g.P(85) {
				o.Arg = &Arg{Form: "pfx", P: g.pfx()}
			}
			s.Threads[t] = append(s.Threads[t], o)
			if q := g.whole(o); q != nil {
				s.Threads[t] = append(s.Threads[t], q)
			}
		}
	}
	if p.hist && g.scale == 0 && g.P(50) {
		g.vanish()
	}
	if (g.prop == "C09" || g.prop == "C27") && g.scale < 2 && g.P(4) {
		g.storm(p)
	}
}

// whole makes the same operation once more, after one that is interrupted by
// caller code or stopped by it, but this time completely.
func (g *gen) whole(o *Op) *Op {
	stop := false
	switch o.K {
	case IClone, SClone: // D is a handle
		return nil
	case IWalk, IDiff, SWalkP, SWalkR, SWalkA:
		stop = o.N >= 0
	}
	if !stop && (o.Fault == nil || o.Fault.Kind == "reenter") || o.D2 >= 0 || Mix(g.s.Seed, 97, uint64(o.ID))%3 != 0 {
		return nil
	}
	c := cloneOps([]*Op{o})[0]
	c.Fault = nil
	if stop {
		c.N = -1
	}
	c.ID = g.nextOp
	g.nextOp++
	if o.D >= 0 {
		switch {
		case len(g.allT) > 0 && g.allT[len(g.allT)-1] == o.D:
			g.newT(c)
		case len(g.allS) > 0 && g.allS[len(g.allS)-1] == o.D:
			g.newS(c)
		default:
			return nil
		}
	}
	return c
}

// storm has a thread interrupt one kind of operation over and over, and then
// complete it.
func (g *gen) storm(p *prof) {
	var ks []wt
	for _, k := range []string{IWalk, IDiff, IAgg, IMap, IBuild, SBuild, SWalkP, SWalkR, TUpd, TIou, TIns, TGoi, TDel, TGet, TLpm, MIns, MRem, MUni, MHas, SUni, SInt, SDif, SHas, SFind} {
		if g.usable(k, p) {
			ks = append(ks, wt{k, 1})
		}
	}
	if len(ks) == 0 {
		return
	}
	t := g.N(len(g.th))
	g.cur = g.th[t]
	k := g.weighted(ks)
	n := g.Range(8, 70)
	if g.P(5) {
		n = g.Range(250, 300)
	}
	was := g.faultP
	q := *p
	q.reent = 0
	for ; n >= 0; n-- {
		o := g.top(k)
		if o == nil {
			return
		}
		g.faultP = 100
		if n == 0 {
			g.faultP = 0
		}
		g.fault(o, &q)
		if o.Fault != nil && g.P(80) {
			o.Fault.N = 1
		}
		g.s.Threads[t] = append(g.s.Threads[t], o)
	}
	g.faultP = was
}

// vanish has threads remove (almost) all that they may have put in before.
func (g *gen) vanish() {
	keys := append([]md.P{}, g.keys...)
	for t := range g.th {
		g.cur = g.th[t]
		for _, l := range [2][]int{append(append([]int{}, g.tabs...), g.cur.th...), append(append([]int{}, g.sets...), g.cur.sh...)} {
			for _, h := range l {
				if !g.canWrite(h) || g.P(20) {
					continue
				}
				for _, k := range keys {
					if g.P(4) {
						continue
					}
					kind := TDel
					if isSetHandle(g, h) {
						kind = MRem
					}
					o := g.op(kind)
					if o == nil {
						continue
					}
					o.H, o.P, o.PF = h, k, ""
					if kind == MRem {
						o.Arg = &Arg{Form: "pfx", P: k}
					}
					g.s.Threads[t] = append(g.s.Threads[t], o)
				}
			}
		}
	}
}

func isSetHandle(g *gen, h int) bool {
	for _, x := range g.sets {
		if x == h {
			return true
		}
	}
	for _, x := range g.cur.sh {
		if x == h {
			return true
		}
	}
	return false
}

func (g *gen) usable(k string, p *prof) bool {
	switch k[0] {
	case 't', 'i':
		return len(g.tabs) > 0
	case 'm', 's':
		return len(g.sets) > 0
	}
	if k == SWalkA {
		return g.w == 32
	}
	return true
}

// top makes an operation of the client's own script.
func (g *gen) top(k string) *Op {
	o := g.op(k)
	if o == nil {
		return nil
	}
	if IsWrite(k) {
		if g.owner[o.H] == locked {
			o.Lock = true
		}
		if g.owner[o.H] == anybody && g.P(50) {
			o.Retry = g.Range(1, 2)
		}
	}
	return o
}

// fault gives the operation's caller code something unusual to do.
func (g *gen) fault(o *Op, p *prof) {
	if !g.P(g.faultP) {
		return
	}
	f := &Fault{N: 1}
	if g.P(55) {
		f.N = 1 + g.N(7)
	}
	switch {
	case g.P(p.reent):
		f.Kind = "reenter"
	case g.P(65):
		f.Kind = "panic"
	default:
		f.Kind = "goexit"
	}
	// make sure there is caller code to run
	switch o.K[0] {
	case 't':
		if g.s.Val != 2 && g.s.Val != 3 && g.s.Val != 5 || g.P(30) {
			if o.K == TNum || o.K == TSnap {
				return
			}
			o.PF = "wrap"
		}
	case 'm', 's':
		if o.Arg != nil && o.Arg.Form != "nil" {
			o.Arg.Wrap = true
			f.N = 1 + g.N(2)
		}
	}
	if f.Kind == "reenter" {
		n := g.Range(1, 3)
		g.depth++
		for i := 0; i < n; i++ {
			var k string
			if len(g.tabs) > 0 && (len(g.sets) == 0 || g.P(50)) {
				k = g.weighted(tableBody)
			} else {
				k = g.weighted(setBody)
			}
			x := g.op(k)
			if x == nil {
				continue
			}
			if g.P(50) && IsWrite(x.K) && o.K[0] == x.K[0] && o.H >= 0 && g.canWrite(o.H) && (x.Arg == nil || x.Arg.Form != "handle") {
				x.H = o.H
			}
			f.Sub = append(f.Sub, x)
		}
		g.depth--
		if len(f.Sub) == 0 {
			return
		}
	}
	o.Fault = f
}

func (g *gen) sched(p *prof) Sched {
	sd := Sched{MaxPre: 400, Budget: 1 << 20}
	if g.scale > 1 || p.walk {
		sd.Budget = 1 << 26
	}
	if len(g.s.Threads) == 1 {
		return sd
	}
	sd.OpP = []uint32{0, 6000, 20000, 45000}[g.N(4)]
	switch g.N(8) {
	case 0:
		sd.Mode = "serial"
		sd.OpP = 30000
	case 1, 2, 3:
		sd.Mode = "hot"
		sd.HotP = []uint32{600, 2500, 9000, 25000}[g.N(4)]
	case 4, 5:
		sd.Mode = "cold"
		sd.ColdMean = []uint64{4, 15, 60, 250, 1000}[g.N(5)]
	case 6:
		sd.Mode = "mixed"
		sd.HotP = []uint32{1000, 5000, 15000}[g.N(3)]
		sd.ColdMean = []uint64{8, 40, 200}[g.N(3)]
	case 7:
		sd.Mode = "victim"
		sd.Victim = 1 + g.N(len(g.s.Threads))
		sd.HotP = []uint32{15000, 40000, 60000}[g.N(3)]
		sd.OpP = 40000
	}
	if g.P(50) {
		sd.StallP = []uint32{2000, 12000, 40000}[g.N(3)]
	}
	lock := false
	for _, o := range g.owner {
		if o == locked {
			lock = true
		}
	}
	if !lock && g.P(p.abandon) {
		sd.AbandonP = []uint32{500, 3000, 15000}[g.N(3)]
	}
	return sd
}

// stalls: one client is interrupted as often as possible while others complete
// writes, or is left behind for ever in the middle of an operation.
func (g *gen) stalls() Sched {
	s := g.s
	p := &prof{tabs: [2]int{1, 1}, vmax: [2]int{2, 3}, custom: 20, copies: 2}
	if g.P(50) {
		p.tabs, p.sets = p.sets, [2]int{1, 1}
	}
	p.ents = [2]int{2, 10}
	g.world(p)
	s.Solo = true
	isT := len(g.tabs) > 0
	g.owner[0] = anybody
	sd := Sched{MaxPre: 4000, Budget: 1 << 20, Mode: "stalls"}
	wr, rd := mWrite, mRead
	if isT {
		wr, rd = tWrite, tRead
	}
	nwriters := 1
	add := func(t int, o *Op) {
		if o != nil {
			s.Threads[t] = append(s.Threads[t], o)
		}
	}
	nthr := 0
	mk := func() int {
		g.th = append(g.th, &gthr{id: nthr})
		s.Threads = append(s.Threads, nil)
		nthr++
		g.cur = g.th[nthr-1]
		return nthr - 1
	}
	plain := func(o *Op) *Op {
		if o != nil && o.Arg != nil && o.Arg.Form == "handle" {
			o.Arg = g.plainArg()
		}
		return o
	}
	var snap, derived []wt
	der := false
	switch g.N(3) {
	case 0: // a reader against a busy writer
		t := mk()
		for n := g.Range(2, 4); n > 0; n-- {
			add(t, plain(g.op(g.weighted(rd))))
		}
		g.owner[0] = 1
		sd.Victim = 1
		sd.HotP = 62000
		sd.OpP = 65536
	case 1: // a writer against a busy writer
		s.Multi = true
		t := mk()
		for n := g.Range(1, 3); n > 0; n-- {
			add(t, plain(g.op(g.weighted(wr))))
		}
		sd.Victim = 1
		sd.HotP = 62000
		sd.OpP = 65536
	case 2: // somebody stops in the middle of anything, for ever
		s.Multi = g.P(60)
		n := g.Range(1, 3)
		snap, derived = one(MSnap, 1), sRead
		if isT {
			snap, derived = one(TSnap, 1), iRead
		}
		der = g.P(40) // also operations on immutable objects
		for i := 0; i < n; i++ {
			t := mk()
			if der {
				add(t, g.op(g.weighted(snap)))
				for n := g.Range(1, 4); n > 0; n-- {
					add(t, plain(g.op(g.weighted(derived))))
				}
				if g.P(50) {
					continue
				}
			}
			for n := g.Range(1, 4); n > 0; n-- {
				k := g.weighted(rd)
				if s.Multi && g.P(75) {
					k = g.weighted(wr)
				}
				add(t, plain(g.op(k)))
			}
		}
		if !s.Multi {
			g.owner[0] = n
		}
		sd.HotP = []uint32{3000, 12000, 30000}[g.N(3)]
		if g.P(30) {
			sd.ColdMean = []uint64{10, 50}[g.N(2)]
		}
		sd.AbandonP = []uint32{20000, 45000}[g.N(2)]
		sd.StallP = 10000
		sd.MaxPre = 300
		nwriters = g.Range(1, 2)
		if !s.Multi {
			nwriters = 1
		}
	}
	for i := 0; i < nwriters; i++ {
		t := mk()
		n := g.Range(80, 160)
		if sd.Mode == "stalls" && sd.Victim == 0 {
			n = g.Range(4, 12)
		}
		if s.Multi && sd.Victim != 0 {
			n = g.Range(40, 110)
		}
		for ; n > 0; n-- {
			k := g.weighted(wr)
			if g.P(8) {
				k = g.weighted(rd)
			}
			if der && g.P(30) {
				add(t, g.op(g.weighted(snap)))
				k = g.weighted(derived)
			}
			add(t, plain(g.op(k)))
		}
	}
	return sd
}

// crowd: many clients are left behind for ever, most of them inside the same
// kind of operation, which another one then has to complete.
func (g *gen) crowd(p *prof) Sched {
	s := g.s
	g.depth = 0
	q := &prof{vmax: [2]int{2, 3}, custom: 30, copies: 1, ents: [2]int{3, 8}, tabs: [2]int{1, 1}, sets: [2]int{0, 1}}
	if g.P(50) {
		q.tabs, q.sets = q.sets, q.tabs
	}
	g.world(q)
	if p.iso {
		s.Iso, s.NS = true, s.NH
	} else {
		s.Solo = true
	}
	n := g.Range(5, 24)
	if g.P(20) {
		n = g.Range(24, 70)
	}
	var ks []wt
	for _, k := range []string{IWalk, IDiff, IAgg, IMap, IGet, ILpm, IClone, IBuild, SWalkP, SWalkR, SUni, SInt, SDif, SHas, SFind, SStr, SNumP, SEq, SClone, SBuild, OFix} {
		if g.usable(k, p) {
			ks = append(ks, wt{k, 1})
		}
	}
	if !p.iso {
		for _, k := range []string{TGet, TLpm, TNum, TSnap, MHas, MUni, MInt, MDif, MSnap} {
			if g.usable(k, p) {
				ks = append(ks, wt{k, 1})
			}
		}
	}
	kind := g.weighted(ks)
	other := g.weighted(ks)
	var tw, mw []wt
	if g.P(40) { // writes to objects of their own
		for _, k := range []string{TIns, TUpd, TIou, TGoi, TDel, MIns, MRem} {
			if g.usable(k, p) {
				if k[0] == 't' {
					tw = append(tw, wt{k, 1})
				} else {
					mw = append(mw, wt{k, 1})
				}
			}
		}
	}
	var wk string
	if all := append(append([]wt{}, tw...), mw...); len(all) > 0 {
		wk = g.weighted(all)
	}
	for i := range g.owner {
		g.owner[i] = n
	}
	for i := 0; i <= n; i++ {
		g.th = append(g.th, &gthr{id: i})
		s.Threads = append(s.Threads, nil)
	}
	for i := 0; i <= n; i++ {
		g.cur = g.th[i]
		if p.iso {
			g.cur.tslots = append(g.cur.tslots, g.tabs...)
			g.cur.sslots = append(g.cur.sslots, g.sets...)
		}
		add := func(k string) *Op {
			o := g.op(k)
			if o == nil {
				return nil
			}
			if o.Arg != nil && o.Arg.Form == "handle" {
				o.Arg = g.plainArg()
			}
			if k == IWalk || k == IDiff {
				o.N = -1
				if g.P(70) {
					o.M = 0
				}
			}
			s.Threads[i] = append(s.Threads[i], o)
			return o
		}
		if !p.iso {
			if len(g.tabs) > 0 && (kind[0] == 'i' || g.P(20)) {
				add(TSnap)
			}
			if len(g.sets) > 0 && (kind[0] == 's' || g.P(20)) {
				add(MSnap)
			}
		}
		for m := g.Range(1, 3); m > 0; m-- {
			k := kind
			if g.P(10) {
				k = other
			}
			add(k)
		}
		if wk != "" {
			c := SClone
			if wk[0] == 't' {
				c = IClone
			}
			if o := add(c); o != nil {
				for m := g.Range(1, 3); m > 0; m-- {
					if x := add(wk); x != nil {
						x.H = o.D
					}
				}
			}
		}
		if i == n { // somebody who has to complete all of it
			for m := g.Range(1, 4); m > 0; m-- {
				add(g.weighted(ks))
			}
			add(kind)
			if !p.iso && g.P(50) {
				add(TIou)
				add(MIns)
			}
		}
	}
	sd := Sched{MaxPre: 4000, Budget: 1 << 20, Mode: "crowd"}
	sd.ColdMean = []uint64{8, 20, 50, 120}[g.N(4)]
	sd.AbandonP = []uint32{30000, 55000, 65000}[g.N(3)]
	if g.P(30) {
		sd.HotP = 10000
	}
	return sd
}

// values: clients call functions of addresses, masks, prefixes and ranges, often
// the same ones or about the same values.
func (g *gen) values() Sched {
	s := g.s
	s.Vals = true
	for n := g.Range(1, 2); n > 0; n-- {
		g.clus = append(g.clus, g.cluster())
	}
	var addrs []md.A
	for n := g.Range(1, 4); n > 0; n-- {
		addrs = append(addrs, g.addr())
	}
	var lens []int
	for n := g.Range(1, 4); n > 0; n-- {
		lens = append(lens, g.pfx().L)
	}
	var fns []int
	for n := g.Range(1, 12); n > 0; n-- {
		fns = append(fns, g.N(NValue))
	}
	same := g.P(40) // about one function
	nthr, nops := g.Range(2, 4), g.Range(2, 8)
	if g.P(25) {
		nthr, nops = 1, g.Range(5, 40)
	}
	again := 0
	for i := 0; i < nthr; i++ {
		g.th = append(g.th, &gthr{id: i})
		s.Threads = append(s.Threads, nil)
	}
	a := func() md.A {
		if g.P(70) {
			return addrs[g.N(len(addrs))]
		}
		return g.addr()
	}
	l := func() int {
		if g.P(60) {
			return lens[g.N(len(lens))]
		}
		return g.length()
	}
	for i := 0; i < nops; i++ {
		for t := range g.th {
			o := &Op{ID: g.nextOp, K: VCall, D: -1, P: md.P{A: a(), L: l()}, Arg: &Arg{Form: "pfx", P: md.P{A: a(), L: l()}, Hi: a()}, N: l() + g.N(2), V: g.N(8), M: g.N(NValue)}
			if g.P(70) {
				o.M = fns[g.N(len(fns))]
			}
			if same {
				o.M = fns[0]
			}
			if g.P(30) {
				o.V = g.N(2)
			}
			g.nextOp++
			if g.P(12) && again > 0 {
				o.K, o.M = VAgain, g.N(8)
			}
			again++
			s.Threads[t] = append(s.Threads[t], o)
		}
	}
	return g.sched(&prof{abandon: 40})
}

// burst: one client is suspended inside an operation while another completes
// hundreds of writes to the same object, often a number which is round in binary.
func (g *gen) burst(p *prof) Sched {
	s := g.s
	isT := p.tabs[1] > 0 && (p.sets[1] == 0 || g.P(50))
	q := &prof{vmax: [2]int{2, 3}, custom: 20, copies: 1, ents: [2]int{0, 6}}
	if isT {
		q.tabs = [2]int{1, 1}
	} else {
		q.sets = [2]int{1, 1}
	}
	g.world(q)
	g.owner[0] = anybody
	s.Multi = p.multi > 0
	rd, wr := mRead, []wt{{MIns, 5}, {MRem, 5}}
	on, off := MIns, MRem
	if isT {
		rd, wr = tRead, []wt{{TIns, 3}, {TIou, 3}, {TUpd, 2}, {TDel, 3}, {TGoi, 1}}
		on, off = TIns, TDel
	}
	plain := func(o *Op) *Op {
		if o != nil && o.Arg != nil {
			o.Arg = &Arg{Form: "pfx", P: g.pfx()}
		}
		if o != nil {
			o.PF = "pfx"
		}
		return o
	}
	for i := 0; i < 2; i++ {
		g.th = append(g.th, &gthr{id: i})
		s.Threads = append(s.Threads, nil)
	}
	add := func(t int, o *Op) {
		if o != nil {
			s.Threads[t] = append(s.Threads[t], o)
		}
	}
	g.cur = g.th[0]
	for n := g.Range(1, 3); n > 0; n-- {
		k := g.weighted(rd)
		if s.Multi {
			k = g.weighted(wr)
		}
		add(0, plain(g.op(k)))
	}
	g.cur = g.th[1]
	keys := []md.P{g.pfx(), g.pfx(), g.pfx()}[:g.Range(1, 3)]
	toggle := g.P(60)
	for i, n := 0, g.Range(270, 530); i < n; i++ {
		if !toggle {
			add(1, plain(g.op(g.weighted(wr))))
			continue
		}
		k := on
		if i/len(keys)%2 == 1 {
			k = off
		}
		o := plain(g.op(k))
		if o == nil {
			continue
		}
		o.P = keys[i%len(keys)]
		if o.Arg != nil {
			o.Arg = &Arg{Form: "pfx", P: o.P}
		}
		add(1, o)
	}
	sd := Sched{MaxPre: 4000, Budget: 1 << 20, Mode: "burst", Victim: 1, HotP: []uint32{4000, 12000, 30000}[g.N(3)], OpP: 65536, StallP: 65536}
	for _, n := range []int{64, 127, 128, 128, 255, 256, 256, 256, 257, 512} {
		sd.StallLen = append(sd.StallLen, n+g.N(3)/2)
	}
	return sd
}

// cost: a large table, a few writes, and diffs of the versions before and after.
func (g *gen) cost() Sched {
	s := g.s
	sd := Sched{MaxPre: 100, Budget: 1 << 24, Mode: "cost"}
	s.Cost = true
	s.Val = 3
	s.Copies = 1
	g.vmax = 3
	for n := g.Range(1, 3); n > 0; n-- {
		g.clus = append(g.clus, g.cluster())
	}
	n := g.Range(300, 4000)
	if g.P(15) {
		n = g.Range(4000, 15000)
	}
	var ti TabInit
	dense := g.P(50)
	top := g.Range(0, g.w-16)
	base := md.A{Hi: g.U(), Lo: g.U()}.And(md.Max(g.w))
	nv := g.Range(1, 3)
	for ; n > 0; n-- {
		l := g.Range(4, g.w)
		a := md.A{Hi: g.U(), Lo: g.U()}.And(md.Max(g.w))
		if dense {
			l = top + g.Range(6, 16)
			a = md.P{A: base, L: top}.First(g.w).Or(a.And(md.Low(g.w - top)))
		}
		ti.E = append(ti.E, md.E{P: md.P{A: a, L: l}, V: g.N(nv)})
	}
	s.Tabs = []TabInit{ti}
	s.NH = 1
	g.tabs = []int{0}
	nthr := 1
	if g.P(40) {
		nthr = 2
	}
	g.owner = []int{0}
	for i := 0; i < nthr; i++ {
		g.th = append(g.th, &gthr{id: i})
		s.Threads = append(s.Threads, nil)
	}
	put := func(t int, o *Op) {
		if o != nil {
			s.Threads[t] = append(s.Threads[t], o)
		}
	}
	for t := range g.th {
		g.cur = g.th[t]
		if g.P(80) {
			put(t, g.op(TSnap))
		}
		put(t, g.op(TSnap))
		derived := false
		for r := g.Range(1, 3); r > 0; r-- {
			if t == 0 {
				for w := g.N(4); w > 0; w-- {
					o := g.op(g.weighted(tWrite))
					o.PF = ""
					o.H = 0
					if len(g.cur.th) > 0 && g.P(40) {
						o.H = g.cur.th[0]
					}
					if g.P(85) {
						e := ti.E[g.N(len(ti.E))]
						o.P = e.P
						switch g.N(5) {
						case 0: // more specific
							if o.P.L < g.w {
								o.P.L = g.Range(o.P.L, g.w)
							}
						case 1:
							o.P.L = g.Range(0, o.P.L)
						}
						if g.P(50) {
							o.V = e.V // often equal
						}
					}
					put(t, o)
				}
			}
			k := TSnap
			switch {
			case t == 0 && !derived && g.P(20):
				k = IClone
				derived = true
			case g.P(10):
				k = IBuild
			}
			o := g.op(k)
			if o != nil && o.K == TSnap && len(g.cur.th) > 0 && g.P(50) {
				o.H = g.cur.th[0]
			}
			if o != nil && o.K == IBuild {
				for _, x := range o.Sub {
					x.PF = ""
				}
			}
			put(t, o)
			d := g.op(IDiff)
			if d != nil {
				d.M |= 8
				d.N = -1
				put(t, d)
			}
		}
		if g.P(30) {
			// a derived table, and what is left of it when it is derived again
			k := []string{IMap, IAgg}[g.N(2)]
			o := g.op(k)
			put(t, o)
			if o == nil {
				continue
			}
			last := func() int { return g.cur.tslots[len(g.cur.tslots)-1] }
			a, b := o.S, last()
			o.M = Few | g.N(256)<<8
			if k == IAgg || g.P(30) {
				q := g.op(k)
				q.S, q.M = b, o.M
				if g.P(30) {
					q.M = 0
				}
				put(t, q)
				a, b = b, last()
			}
			if k == IAgg && g.P(30) {
				q := g.op(IMap)
				q.S, q.M = b, 0
				put(t, q)
				b = last()
			}
			d := g.op(IDiff)
			d.S, d.S2, d.M, d.N = a, b, d.M|8, -1
			put(t, d)
		}
	}
	if nthr > 1 {
		sd.OpP = 30000
		sd.HotP = 3000
	}
	return sd
}

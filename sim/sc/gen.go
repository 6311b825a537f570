package sc

import (
	"verifsim/md"
)

// Rng is a splitmix64 generator.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }

func (r *Rng) U() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U() % uint64(n))
}
func (r *Rng) P(pct int) bool     { return r.N(100) < pct }
func (r *Rng) Range(a, b int) int { return a + r.N(b-a+1) }

// Mix derives a seed.
func Mix(a ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, x := range a {
		h ^= x + 0x9e3779b97f4a7c15 + h<<6 + h>>2
		r := Rng{h}
		h = r.U()
	}
	return h
}

// Sched is how a run is scheduled (see rt.Config).
type Sched struct {
	Mode     string
	HotP     uint32
	OpP      uint32
	ColdMean uint64
	StallP   uint32
	StallLen []int
	AbandonP uint32
	MaxPre   int
	Victim   int
	Budget   uint64
}

type wt struct {
	k string
	n int
}

// gen is the state of the generator.
type gen struct {
	*Rng
	w      int
	s      *Script
	prop   string
	clus   []cluster
	nextOp int
	owner  []int // of initial handles; -1 shared by locked writers; -2 anybody
	tabs   []int // initial table handles
	sets   []int
	vmax   int
	faultP int
	th     []*gthr
	allT   []int // table slots of any thread
	allS   []int
	allTH  []int // handles made during the run, of any thread
	allSH  []int
	giveT  []int // table handles made by one thread for another to write
	giveS  []int
	maker  map[int]int
	depth  int
	cur    *gthr
	bulk   []md.P // initial entries of large tables and chains
	bulkS  []md.P // the same for sets, if different
	keys   []md.P // prefixes recently used by operations
	scale  int    // 2: hundreds or thousands of initial entries, 3: over 65536
	wild   bool   // other threads' objects may be used
}

type gthr struct {
	id     int
	tslots []int
	sslots []int
	th     []int // own table handles (clones)
	sh     []int
}

type cluster struct {
	base md.A
	top  int
	bits int
}

func (g *gen) cluster() cluster {
	w := g.w
	var c cluster
	c.bits = g.Range(1, 5)
	if g.P(20) {
		c.bits = g.Range(5, 8)
	}
	if c.bits > w {
		c.bits = w
	}
	switch g.N(7) {
	case 0:
		c.top = 0
	case 1:
		c.top = w - c.bits
	case 2:
		if w == 128 {
			c.top = 64 - g.N(c.bits+1)
		} else {
			c.top = g.N(w - c.bits + 1)
		}
	case 3:
		c.top = w - c.bits - g.N(3)
	default:
		c.top = g.N(w - c.bits + 1)
	}
	if c.top < 0 {
		c.top = 0
	}
	if c.top+c.bits > w {
		c.top = w - c.bits
	}
	switch g.N(5) {
	case 0:
		c.base = md.A{}
	case 1:
		c.base = md.Max(w)
	default:
		c.base = md.A{Hi: g.U(), Lo: g.U()}.And(md.Max(w))
	}
	c.base = md.P{A: c.base, L: c.top}.First(w)
	return c
}

// pfx draws a prefix, with host bits now and then.
func (g *gen) pfx() md.P {
	p := g.netPfx()
	if g.P(25) {
		p.A = p.A.Or(md.A{Hi: g.U(), Lo: g.U()}.And(md.Low(g.w - p.L)))
	}
	return p
}

func (g *gen) netPfx() md.P {
	if len(g.keys) > 0 && g.P(12) {
		return g.again()
	}
	p := g.newPfx()
	if len(g.th) > 0 {
		g.keys = append(g.keys, p)
	}
	return p
}

// again is one of the prefixes used by the latest operations.
func (g *gen) again() md.P {
	return g.keys[len(g.keys)-1-g.N(min(6, len(g.keys)))]
}

func (g *gen) newPfx() md.P {
	w := g.w
	if g.P(3) {
		l := g.N(w + 1)
		return md.P{A: md.A{Hi: g.U(), Lo: g.U()}.And(md.Max(w)), L: l}.Norm(w)
	}
	if g.P(2) {
		return md.P{}
	}
	if len(g.bulk) > 0 && g.P(50) {
		p := g.bulk[g.N(len(g.bulk))]
		switch g.N(6) {
		case 0:
			p.L = g.Range(0, p.L)
		case 1:
			p.L = g.Range(max(0, p.L-10), p.L)
		case 2:
			p.L = g.Range(p.L, w)
			p.A = p.A.Or(md.A{Hi: g.U(), Lo: g.U()}.And(md.Low(w - g.Range(0, p.L))))
		}
		return p.Norm(w)
	}
	c := g.clus[g.N(len(g.clus))]
	k := g.N(c.bits + 1)
	if g.P(30) {
		k = c.bits
	}
	l := c.top + k
	path := md.A{Lo: g.U() & (1<<uint(k) - 1)}
	a := c.base.Or(path.Shl(w - l))
	return md.P{A: a, L: l}
}

// addr draws an address: often the first or last of a prefix, or next to it.
func (g *gen) addr() md.A {
	p := g.netPfx()
	switch g.N(4) {
	case 0:
		return p.First(g.w)
	case 1:
		return p.Last(g.w)
	case 2:
		return p.Last(g.w).Inc().And(md.Max(g.w))
	}
	return p.A.Or(md.A{Hi: g.U(), Lo: g.U()}.And(md.Low(g.w - p.L)))
}

func (g *gen) rng() (md.A, md.A) {
	a, b := g.addr(), g.addr()
	if b.Less(a) {
		a, b = b, a
	}
	return a, b
}

func (g *gen) plainArg() *Arg {
	switch g.N(10) {
	case 0:
		return &Arg{Form: "addr", P: md.P{A: g.addr()}}
	case 1, 2, 3:
		a, b := g.rng()
		return &Arg{Form: "rng", P: md.P{A: a}, Hi: b}
	}
	return &Arg{Form: "pfx", P: g.pfx()}
}

func (g *gen) setArg() *Arg {
	var a *Arg
	switch x := g.N(100); {
	case x < 3:
		a = &Arg{Form: "nil"}
	case x < 5:
		a = &Arg{Form: "zero"}
	case x < 7:
		a = &Arg{Form: "zeroset"}
	case x < 35 && len(g.cur.sslots) > 0:
		a = &Arg{Form: "slot", S: g.pick(g.cur.sslots)}
	case x < 42 && g.wild && len(g.allS) > 0:
		a = &Arg{Form: "slot", S: g.pick(g.allS)}
	case x < 50:
		if own := g.ownSets(); len(own) > 0 {
			a = &Arg{Form: "handle", H: g.pick(own), S: g.N(4)}
		}
	case x < 56 && len(g.sets) > 0 && !g.s.Iso:
		// somebody else may be writing it: look at it through a wrapper
		return &Arg{Form: "handle", H: g.pick(g.sets), S: g.N(4), Wrap: true}
	}
	if a == nil {
		a = g.plainArg()
	}
	if a.Form != "nil" && g.P(15) {
		a.Wrap = true
	}
	return a
}

func (g *gen) pick(l []int) int {
	// recent ones more often
	if len(l) > 3 && g.P(50) {
		return l[len(l)-1-g.N(3)]
	}
	return l[g.N(len(l))]
}

// ownSets are the sets only the current thread writes.
func (g *gen) ownSets() []int {
	var out []int
	for _, h := range g.sets {
		if g.owner[h] == g.cur.id {
			out = append(out, h)
		}
	}
	return append(out, g.cur.sh...)
}

func (g *gen) slot() int {
	g.s.NS++
	return g.s.NS - 1
}

func (g *gen) newHandle() int {
	g.s.NH++
	g.owner = append(g.owner, g.cur.id)
	g.maker[g.s.NH-1] = g.cur.id
	return g.s.NH - 1
}

func (g *gen) weighted(ws []wt) string {
	t := 0
	for _, w := range ws {
		t += w.n
	}
	x := g.N(t)
	for _, w := range ws {
		if x < w.n {
			return w.k
		}
		x -= w.n
	}
	return ws[0].k
}

func (g *gen) stopN() int {
	if g.P(60) {
		return -1
	}
	return 1 + g.N(6)
}

// canWrite: may the current thread write handle h?
func (g *gen) canWrite(h int) bool {
	switch g.owner[h] {
	case g.cur.id, anybody:
		return true
	case locked:
		return g.depth == 0 // only the client's own operations take the lock
	}
	return false
}

// Owners of mutable objects other than one thread.
const (
	locked  = -1 // any thread, holding an outside lock
	anybody = -2
	given   = -3 // not yet taken by anyone
)

// give decides whether a mutable object that a thread has just made belongs to
// another thread from then on.
func (g *gen) give(l *[]int, h int) bool {
	if g.prop != "C11" || !g.wild || g.depth > 0 || !g.P(50) {
		return false
	}
	*l = append(*l, h)
	g.owner[h] = given
	return true
}

// take gives the current thread an object made by another one.
func (g *gen) take(l, own *[]int) (int, bool) {
	if len(*l) == 0 || !g.P(40) {
		return 0, false
	}
	i := g.N(len(*l))
	h := (*l)[i]
	if g.maker[h] == g.cur.id {
		return 0, false
	}
	*l = append((*l)[:i:i], (*l)[i+1:]...)
	g.owner[h] = g.cur.id
	*own = append(*own, h)
	return h, true
}

func (g *gen) tableHandle(write bool) (int, bool) {
	if write {
		if h, ok := g.take(&g.giveT, &g.cur.th); ok {
			return h, true
		}
	}
	var c []int
	for _, h := range g.tabs {
		if !write && !g.s.Iso || g.canWrite(h) {
			c = append(c, h)
		}
	}
	if !write && g.wild && len(g.allTH) > 0 && g.P(15) {
		return g.pick(g.allTH), true
	}
	if len(g.cur.th) > 0 && (len(c) == 0 || g.P(25)) {
		return g.cur.th[g.N(len(g.cur.th))], true
	}
	if len(c) == 0 {
		return 0, false
	}
	return c[g.N(len(c))], true
}

func (g *gen) setHandle(write bool) (int, bool) {
	if write {
		if h, ok := g.take(&g.giveS, &g.cur.sh); ok {
			return h, true
		}
	}
	var c []int
	for _, h := range g.sets {
		if !write && !g.s.Iso || g.canWrite(h) {
			c = append(c, h)
		}
	}
	if !write && g.wild && len(g.allSH) > 0 && g.P(15) {
		return g.pick(g.allSH), true
	}
	if len(g.cur.sh) > 0 && (len(c) == 0 || g.P(25)) {
		return g.cur.sh[g.N(len(g.cur.sh))], true
	}
	if len(c) == 0 {
		return 0, false
	}
	return c[g.N(len(c))], true
}

func (g *gen) tslot() (int, bool) {
	if g.wild && len(g.allT) > 0 && g.P(20) {
		return g.pick(g.allT), true
	}
	if len(g.cur.tslots) == 0 {
		return 0, false
	}
	return g.pick(g.cur.tslots), true
}

func (g *gen) sslot() (int, bool) {
	if g.wild && len(g.allS) > 0 && g.P(20) {
		return g.pick(g.allS), true
	}
	if len(g.cur.sslots) == 0 {
		return 0, false
	}
	return g.pick(g.cur.sslots), true
}

func (g *gen) newT(o *Op) {
	o.D = g.slot()
	g.cur.tslots = append(g.cur.tslots, o.D)
	g.allT = append(g.allT, o.D)
}
func (g *gen) newS(o *Op) {
	o.D = g.slot()
	g.cur.sslots = append(g.cur.sslots, o.D)
	g.allS = append(g.allS, o.D)
}

func (g *gen) prefixForm(o *Op) {
	if o.P = g.pfx(); len(g.keys) > 0 && g.P(15) {
		o.P = g.again()
	}
	switch x := g.N(100); {
	case x < 8:
		o.PF = "addr"
	case x < 11:
		o.PF = "nil"
	case x < 18:
		o.PF = "wrap"
	}
}

func (g *gen) val() int { return g.N(g.vmax) }

// op makes one operation of kind k; nil if nothing it needs exists.
func (g *gen) op(k string) *Op {
	o := &Op{ID: g.nextOp, K: k, H: -1, S: -1, S2: -1, D: -1, D2: -1, N: -1}
	g.nextOp++
	ok := true
	switch k[0] {
	case 't':
		if o.H, ok = g.tableHandle(IsWrite(k)); !ok {
			return nil
		}
		o.A = g.N(g.s.Copies)
		g.prefixForm(o)
		o.V = g.val()
		o.Tag = g.N(5)
		if k == TSnap {
			g.newT(o)
		}
	case 'i':
		if o.S, ok = g.tslot(); !ok {
			return nil
		}
		g.prefixForm(o)
		switch k {
		case IWalk:
			o.N = g.stopN()
		case IDiff:
			if o.S2, ok = g.tslot(); !ok {
				return nil
			}
			o.N = g.stopN()
			switch g.N(3) {
			case 0:
				o.M = 0
			case 1:
				o.M = 8
			default:
				o.M = g.N(16)
			}
		case IAgg:
			g.newT(o)
		case IMap:
			o.M = g.N(32)
			o.Tag = g.N(5)
			g.newT(o)
		case IClone:
			o.M = g.relays()
			o.D = g.newHandle()
			if !g.give(&g.giveT, o.D) {
				g.cur.th = append(g.cur.th, o.D)
			}
			g.allTH = append(g.allTH, o.D)
		case IBuild:
			o.D2 = g.newHandle()
			g.allTH = append(g.allTH, o.D2)
			o.M = 0
			if g.P(35) {
				o.M = 1
			}
			save := g.cur.th
			g.cur.th = []int{o.D2}
			n := g.N(5)
			gave := g.give(&g.giveT, o.D2)
			if gave {
				n = 0
			}
			g.depth++
			for i := 0; i < n; i++ {
				if x := g.op(g.weighted(tableBody)); x != nil {
					if x.K[0] == 't' && g.P(75) {
						x.H = o.D2
					}
					o.Sub = append(o.Sub, x)
				}
			}
			g.depth--
			g.cur.th = save
			if !gave && g.P(60) {
				g.cur.th = append(g.cur.th, o.D2) // used again after the build
			}
			g.newT(o)
		}
	case 'm':
		if o.H, ok = g.setHandle(IsWrite(k)); !ok {
			return nil
		}
		o.A = g.N(g.s.Copies)
		switch k {
		case MEq:
			own := g.ownSets()
			if len(own) == 0 {
				return nil
			}
			o.S = g.pick(own)
		case MIns, MRem, MHas:
			o.Arg = g.setArg()
		case MUni, MInt, MDif:
			o.Arg = g.setArg()
			g.newS(o)
		case MSnap:
			g.newS(o)
		}
		if o.Arg != nil && g.canWriteAlone(o.H) && g.P(4) {
			// the object itself, perhaps through another copy of the handle
			o.Arg = &Arg{Form: "handle", H: o.H, S: g.N(4), Wrap: g.P(25)}
		}
		if o.Arg != nil && o.Arg.Form == "handle" && o.Arg.H == o.H && !g.canWriteAlone(o.H) {
			o.Arg = g.plainArg()
		}
		if k == MEq && o.S == o.H && !g.canWriteAlone(o.H) {
			return nil
		}
	case 's':
		if o.S, ok = g.sslot(); !ok {
			return nil
		}
		switch k {
		case SHas:
			o.Arg = g.setArg()
		case SUni, SInt, SDif:
			o.Arg = g.setArg()
			g.newS(o)
		case SEq:
			if o.S2, ok = g.sslot(); !ok {
				return nil
			}
		case SWalkP, SWalkR, SWalkA:
			o.N = g.stopN()
		case SNumP:
			o.N = g.length()
			if g.P(60) {
				c := g.clus[g.N(len(g.clus))]
				o.N = c.top + g.N(c.bits+1)
			}
		case SFind:
			o.Arg = g.setArg()
			o.N = g.netPfx().L
			if g.P(10) {
				o.N = g.length()
			}
			if g.P(3) {
				o.N = g.w + 1 + g.N(9)
			}
		case SClone:
			o.M = g.relays()
			o.D = g.newHandle()
			if !g.give(&g.giveS, o.D) {
				g.cur.sh = append(g.cur.sh, o.D)
			}
			g.allSH = append(g.allSH, o.D)
		case SBuild:
			o.D2 = g.newHandle()
			g.allSH = append(g.allSH, o.D2)
			if g.P(35) {
				o.M = 1
			}
			save := g.cur.sh
			g.cur.sh = []int{o.D2}
			n := g.N(5)
			gave := g.give(&g.giveS, o.D2)
			if gave {
				n = 0
			}
			g.depth++
			for i := 0; i < n; i++ {
				if x := g.op(g.weighted(setBody)); x != nil {
					if x.K[0] == 'm' && g.P(75) && x.K != MEq && (x.Arg == nil || x.Arg.Form != "handle") {
						x.H = o.D2
					}
					o.Sub = append(o.Sub, x)
				}
			}
			g.depth--
			g.cur.sh = save
			if !gave && g.P(60) {
				g.cur.sh = append(g.cur.sh, o.D2)
			}
			g.newS(o)
		}
	case 'o':
		o.P = g.pfx()
		switch k {
		case OHas:
			o.Arg = g.setArg()
			o.Arg2 = g.plainArg()
		case OFix:
			if o.Arg = g.setArg(); o.Arg.Form == "nil" {
				o.Arg = g.plainArg()
			}
			g.newS(o)
		case OZeroT:
			o.N = g.N(20)
			g.prefixForm(o)
			o.PF = ""
		case OZeroS:
			o.N = g.N(19)
			o.Arg = g.setArg()
			o.Arg.Wrap = false
			if o.Arg.Form == "handle" {
				o.Arg = g.plainArg()
			}
		}
	}
	return o
}

// relays says how many times an object changes between immutable and mutable
// before a mutable copy of it is used.
func (g *gen) relays() int {
	if !g.s.Hist || !g.P(50) {
		return 0
	}
	if g.P(15) {
		return 1 + g.N(400)
	}
	return 1 + g.N(40)
}

func (g *gen) length() int { return g.N(g.w + 1) }

func (g *gen) canWriteAlone(h int) bool { return g.owner[h] == g.cur.id }

var tableBody = []wt{{TIns, 4}, {TUpd, 2}, {TIou, 4}, {TGoi, 2}, {TDel, 4}, {TGet, 1}, {TLpm, 1}, {TNum, 1}, {TSnap, 1}}
var setBody = []wt{{MIns, 5}, {MRem, 4}, {MHas, 1}, {MEmpty, 1}, {MSnap, 1}, {MUni, 1}}

var tWrite = []wt{{TIns, 4}, {TUpd, 3}, {TIou, 5}, {TGoi, 2}, {TDel, 6}}
var tRead = []wt{{TGet, 4}, {TLpm, 5}, {TNum, 2}, {TSnap, 3}}
var iRead = []wt{{IGet, 2}, {ILpm, 2}, {INum, 1}, {IWalk, 2}, {IDiff, 2}, {IAgg, 1}, {IMap, 1}, {IBuild, 1}, {IClone, 1}}
var mWrite = []wt{{MIns, 6}, {MRem, 5}}
var mRead = []wt{{MHas, 4}, {MEmpty, 1}, {MEq, 1}, {MCnt, 2}, {MUni, 1}, {MInt, 1}, {MDif, 1}, {MSnap, 3}}
var sRead = []wt{{SHas, 2}, {SEmpty, 1}, {SEq, 1}, {SCnt, 1}, {SUni, 2}, {SInt, 2}, {SDif, 2}, {SWalkP, 1}, {SWalkR, 1}, {SWalkA, 1}, {SStr, 1}, {SNumP, 1}, {SFind, 1}, {SBuild, 1}, {SClone, 1}, {OHas, 1}, {OFix, 1}}

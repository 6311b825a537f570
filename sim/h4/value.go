package h4

import (
	"fmt"
	"net"
	"strings"

	"gopkg.in/addrs.v1/ip"
	fam "gopkg.in/addrs.v1/ipv4"

	"verifsim/md"
	"verifsim/rt"
	"verifsim/sc"
)

// Addresses, masks, prefixes and ranges: calls of their functions by clients
// who overwrite everything that belongs to them afterwards.

// vcall is one call.
type vcall struct {
	op   *sc.Op
	t    *thr
	once []func() string // results which belong to the caller, shown before they are overwritten
	keep []func() string // values, and what is to be had from them at any time
	end  []func()        // overwrite arguments and results
}

// kept is a value that stays around.
type kept struct {
	op   *sc.Op
	show func() string
	was  string
}

func (c *vcall) err(err error) bool {
	s := fmt.Sprint(err)
	c.once = append(c.once, func() string { return "error " + s })
	return err != nil
}
func (c *vcall) out(a ...any) {
	s := fmt.Sprint(a...)
	c.once = append(c.once, func() string { return s })
}
func (c *vcall) val(f func() string) { c.keep = append(c.keep, f) }

// bytes are a result or an argument that belongs to the caller.
func (c *vcall) bytes(b []byte) []byte {
	c.once = append(c.once, func() string { return fmt.Sprintf("%x", b) })
	x := byte(0xa5 ^ c.op.V)
	c.end = append(c.end, func() {
		b = b[:cap(b)]
		for i := range b {
			b[i] = x
		}
	})
	return b
}

func (c *vcall) addr(a fam.Address) {
	c.val(func() string { return fmt.Sprint(unAddr(a), " ", a.String()) })
	c.val(func() string {
		b := a.ToNetIP()
		s := fmt.Sprintf("%x", []byte(b))
		(&vcall{op: c.op}).spoil(b)
		return s
	})
}
func (c *vcall) mask(m fam.Mask) {
	c.val(func() string { return fmt.Sprint(m.Length(), " ", m.String()) })
	c.val(func() string {
		b := m.ToNetIPMask()
		s := fmt.Sprintf("%x", []byte(b))
		(&vcall{op: c.op}).spoil(b)
		return s
	})
}
func (c *vcall) pfx(p fam.Prefix) {
	c.val(func() string { return fmt.Sprint(unAddr(p.Address()), "/", p.Length(), " ", p.String()) })
	c.val(func() string {
		n := p.ToNetIPNet()
		s := fmt.Sprintf("%x/%x", []byte(n.IP), []byte(n.Mask))
		c.apart(n)
		(&vcall{op: c.op}).spoil(n.IP)
		(&vcall{op: c.op}).spoil(n.Mask)
		return s
	})
}
func (c *vcall) rng(r fam.Range) {
	c.val(func() string { return fmt.Sprint(unAddr(r.First()), "-", unAddr(r.Last()), " ", r.String()) })
}
func (c *vcall) rngs(l []fam.Range) {
	for _, r := range l {
		c.rng(r)
	}
	c.once = append(c.once, func() string { return fmt.Sprint(l) })
	c.end = append(c.end, func() {
		l = l[:cap(l)]
		for i := range l {
			l[i] = mkRange(c.op.P.A, c.op.P.A)
		}
	})
}
func (c *vcall) set(s fam.Set) {
	c.val(func() string {
		var b strings.Builder
		s.WalkPrefixes(func(p fam.Prefix) bool {
			fmt.Fprint(&b, unAddr(p.Address()), "/", p.Length(), " ")
			return true
		})
		return b.String()
	})
}

func (c *vcall) spoil(b []byte) {
	c.bytes(b)
	c.end[0]()
}

// apart extends each of two slices of one result, which must not show in the other.
func (c *vcall) apart(n *net.IPNet) {
	for i, b := range [][]byte{n.IP, n.Mask} {
		o := [][]byte{n.Mask, n.IP}[i]
		was := string(o)
		(&vcall{op: c.op}).spoil(b[len(b):])
		if string(o) != was {
			c.t.bad("C26", "value-changed", c.op, "value", "op %d: of the address and mask of one network, %x became %x when its caller extended the other", c.op.ID, was, o)
		}
	}
}

// any value of the family-neutral package
func (c *vcall) any(x any) {
	if x == nil {
		c.out("nil")
		return
	}
	c.val(func() string {
		switch x := x.(type) {
		case ip.Address:
			b := x.ToNetIP()
			s := fmt.Sprintf("%T %s %d %x", x, x.String(), x.NumBits(), []byte(b))
			(&vcall{op: c.op}).spoil(b)
			return s
		case ip.Prefix:
			n := x.ToNetIPNet()
			s := fmt.Sprintf("%T %s %d %x/%x", x, x.String(), x.Length(), []byte(n.IP), []byte(n.Mask))
			c.apart(n)
			(&vcall{op: c.op}).spoil(n.IP)
			(&vcall{op: c.op}).spoil(n.Mask)
			return s
		case ip.Mask:
			b := x.ToNetIPMask()
			s := fmt.Sprintf("%T %s %d %x", x, x.String(), x.Length(), []byte(b))
			(&vcall{op: c.op}).spoil(b)
			return s
		case ip.Range:
			return fmt.Sprintf("%T %s", x, x.String())
		}
		return fmt.Sprint(x)
	})
}

// Everything below makes texts and bytes without the library.

// input is like rawBytes; most callers read everything into the same buffers.
func (c *vcall) input(k int, a md.A, w int) []byte {
	b := rawBytes(a, w)
	if c.op.V%4 == 3 {
		return b
	}
	if c.t.buf[k] == nil {
		c.t.buf[k] = make([]byte, 0, 24)
	}
	return append(c.t.buf[k][:0], b...)
}

func (c *vcall) ipnet(ip net.IP, m net.IPMask) *net.IPNet {
	if c.op.V%4 == 3 {
		return &net.IPNet{IP: ip, Mask: m}
	}
	c.t.ipn.IP, c.t.ipn.Mask = ip, m
	return &c.t.ipn
}

func rawBytes(a md.A, w int) []byte {
	var b []byte
	for i := w/8 - 1; i >= 0; i-- {
		x := a.Lo
		if i >= 8 {
			x = a.Hi
		}
		b = append(b, byte(x>>uint(i%8*8)))
	}
	return append(make([]byte, 0, len(b)+4), b...) // with room behind it
}

func rawText(a md.A, w int) string {
	if w == 32 {
		return net.IP(rawBytes(a, 32)).String()
	}
	s := ""
	for i, b := range rawBytes(a, 128) {
		if i > 0 && i%2 == 0 {
			s += ":"
		}
		s += fmt.Sprintf("%02x", b)
	}
	return s
}

// broken makes some texts invalid.
func broken(s string, v int) string {
	switch v {
	case 5:
		return s + "x"
	case 6:
		return strings.Replace(s, "/", "", 1) + "/"
	case 7:
		return ""
	}
	return s
}

func maskBits(l, w, v int) md.A {
	m := md.Low(w - l).Not().And(md.Max(w))
	if v >= 6 {
		m = m.Or(md.A{Lo: 1})
	}
	return m
}

func (r *run) valueCall(c *vcall) {
	op := c.op
	w := W
	p, a, b := op.P, op.P.A, op.Arg.P.A
	q := op.Arg.P
	lo, hi := op.P.A, op.Arg.Hi
	if hi.Less(lo) && op.V != 7 {
		lo, hi = hi, lo
	}
	lo2, hi2 := q.First(w), q.Last(w)
	switch op.M {
	case 0:
		x, err := fam.AddressFromString(broken(rawText(a, w), op.V))
		c.err(err)
		c.addr(x)
	case 1:
		in := net.IP(c.input(0, a, w))
		if op.V == 7 {
			in = in[1:]
		}
		x, err := fam.AddressFromNetIP(in)
		c.err(err)
		c.addr(x)
		c.bytes(in)
	case 2:
		in := c.input(0, a, w)
		if op.V == 7 {
			in = in[:len(in)-1]
		}
		x, err := fam.AddressFromSlice(in)
		c.err(err)
		c.addr(x)
		c.bytes(in)
	case 3:
		c.bytes(mkAddr(a).ToNetIP())
	case 4:
		c.out(mkAddr(a).String())
	case 5:
		x := mkAddr(a)
		c.pfx(x.Prefix())
		c.out(x.NumBits())
	case 6:
		c.set(mkAddr(a).Set())
	case 7:
		m, err := fam.MaskFromLength(op.N - 1)
		c.err(err)
		c.mask(m)
	case 8:
		in := net.IPMask(c.input(1, maskBits(p.L, w, op.V), w))
		m, err := fam.MaskFromNetIPMask(in)
		c.err(err)
		c.mask(m)
		c.bytes(in)
	case 9:
		c.bytes(maskOf[p.L].ToNetIPMask())
	case 10:
		c.out(maskOf[p.L].String(), maskOf[p.L].Length())
	case 11:
		x, err := fam.PrefixFromString(broken(fmt.Sprint(rawText(a, w), "/", p.L), op.V))
		c.err(err)
		c.pfx(x)
	case 12:
		in := c.ipnet(c.input(0, a, w), c.input(1, maskBits(p.L, w, op.V), w))
		x, err := fam.PrefixFromNetIPNet(in)
		c.err(err)
		c.pfx(x)
		c.bytes(in.IP)
		c.bytes(in.Mask)
	case 13:
		c.pfx(fam.PrefixFromAddressMask(mkAddr(a), maskOf[p.L]))
	case 14:
		n := mkPrefix(p).ToNetIPNet()
		c.bytes(n.IP)
		c.bytes(n.Mask)
	case 15:
		c.out(mkPrefix(p).String())
	case 16:
		x := mkPrefix(p)
		c.addr(x.Address())
		c.mask(x.Mask())
	case 17:
		c.pfx(mkPrefix(p).Network())
	case 18:
		c.pfx(mkPrefix(p).Host())
	case 19:
		if p.L < w {
			x, y := mkPrefix(p).Halves()
			c.pfx(x)
			c.pfx(y)
		}
	case 20:
		c.rng(mkPrefix(p).Range())
	case 21:
		n, err := mkPrefix(p).NumPrefixes(uint32(op.N))
		c.err(err)
		c.out(n)
	case 22:
		c.out(mkPrefix(p).Contains(mkPrefix(q)))
	case 23:
		c.out(mkPrefix(p).Contains(mkAddr(b)))
	case 24:
		c.set(mkPrefix(p).Set())
	case 25, 26:
		x, empty := fam.RangeFromAddresses(mkAddr(lo), mkAddr(hi))
		c.out(empty)
		c.rng(x)
		if op.M == 26 && !empty {
			c.addr(x.First())
			c.addr(x.Last())
		}
	case 27:
		x := mkRange(lo, hi)
		c.out(x.String())
		y := mkRange(lo2, hi2)
		c.out(y.String())
	case 28:
		c.rngs(mkRange(lo, hi).Minus(mkRange(lo2, hi2)))
	case 29:
		c.rngs(mkRange(lo, hi).Plus(mkRange(lo2, hi2)))
	case 30:
		x := mkRange(lo2, hi2)
		l := x.Plus(mkRange(a, a))
		m := x.Minus(mkRange(a, a))
		c.rngs(l)
		c.rngs(m)
	case 31:
		c.out(mkRange(lo, hi).Contains(mkPrefix(q)))
	case 32:
		n, err := mkRange(lo, hi).NumPrefixes(uint32(op.N))
		c.err(err)
		c.out(n)
	case 33:
		c.set(mkRange(lo, hi).Set())
	case 34:
		famValue(c, a, p)
	default:
		neutral(c)
	}
}

// neutral calls the family-neutral package, for either family.
func neutral(c *vcall) {
	op := c.op
	p, a, b := op.P, op.P.A, op.Arg.P.A
	w := W
	if op.V&1 == 1 {
		w = 160 - W
		if w == 32 {
			p.L = min(p.L, 32)
		}
		a, b = a.And(md.Max(w)), b.And(md.Max(w))
	}
	addr := func(a md.A) ip.Address {
		x, err := ip.AddressFromNetIP(c.input(0, a, w))
		if c.err(err) {
			return nil
		}
		return x
	}
	switch op.M {
	case 35:
		x, err := ip.AddressFromString(broken(rawText(a, w), op.V))
		if !c.err(err) {
			c.any(x)
		}
	case 36:
		in := net.IP(c.input(0, a, w))
		if op.V == 6 {
			in = in[2:]
		}
		x, err := ip.AddressFromNetIP(in)
		if !c.err(err) {
			c.any(x)
		}
		c.bytes(in)
	case 37:
		in := net.IPMask(c.input(1, maskBits(p.L, w, op.V), w))
		x, err := ip.MaskFromNetIPMask(in)
		if !c.err(err) {
			c.any(x)
		}
		c.bytes(in)
	case 38:
		x, err := ip.PrefixFromString(broken(fmt.Sprint(rawText(a, w), "/", p.L), op.V))
		if !c.err(err) {
			c.any(x)
			c.any(ip.AddressFromPrefix(x))
			c.any(ip.MaskFromPrefix(x))
			c.any(ip.RangeFromPrefix(x))
		}
	case 39:
		in := c.ipnet(c.input(0, a, w), c.input(1, maskBits(p.L, w, op.V), w))
		x, err := ip.PrefixFromNetIPNet(in)
		if !c.err(err) {
			c.any(x)
		}
		c.bytes(in.IP)
		c.bytes(in.Mask)
	case 40:
		if x := addr(a); x != nil {
			c.any(ip.PrefixFromAddress(x))
		}
	case 41:
		x := addr(a)
		m, err := ip.MaskFromNetIPMask(c.input(1, maskBits(p.L, w, 0), w))
		if !c.err(err) {
			y, err := ip.PrefixFromAddressMask(x, m)
			if !c.err(err) {
				c.any(y)
			}
		}
	case 42, 43:
		x, y := addr(a), addr(b)
		if op.M == 43 && op.V > 3 {
			y = mkAddr(op.Arg.Hi)
		}
		r, empty, err := ip.RangeFromAddresses(x, y)
		c.out(empty)
		if !c.err(err) {
			c.any(r)
			c.any(ip.FirstFromRange(r))
			c.any(ip.LastFromRange(r))
		}
	case 44: // what doesn't fit
		var none ip.Prefix
		switch op.V {
		case 0:
			_, err := ip.PrefixFromNetIPNet(nil)
			c.err(err)
			_, err = fam.PrefixFromNetIPNet(nil)
			c.err(err)
		case 1:
			c.any(ip.PrefixFromAddress(nil))
			c.any(ip.AddressFromPrefix(none))
			c.any(ip.MaskFromPrefix(none))
			c.any(ip.RangeFromPrefix(none))
			c.any(ip.FirstFromRange(nil))
			c.any(ip.LastFromRange(nil))
		case 2:
			m, _ := ip.MaskFromNetIPMask(c.input(1, maskBits(min(p.L, 160-w), 160-w, 0), 160-w))
			_, err := ip.PrefixFromAddressMask(addr(a), m)
			c.err(err)
			_, err = ip.PrefixFromAddressMask(nil, m)
			c.err(err)
		default:
			_, empty, err := ip.RangeFromAddresses(nil, addr(a))
			c.out(empty)
			c.err(err)
		}
	case 45: // either length of what is known to the standard library
		in := net.IP(c.input(0, a.And(md.Max(32)), 32))
		x, err := fam.AddressFromNetIP(in.To16())
		c.err(err)
		c.addr(x)
		y, err := ip.AddressFromNetIP(in.To16())
		if !c.err(err) {
			c.any(y)
		}
		n := c.ipnet(in.To16(), c.input(1, maskBits(min(p.L, 32), 32, op.V), 32))
		z, err := fam.PrefixFromNetIPNet(n)
		c.err(err)
		c.pfx(z)
		c.bytes(n.IP)
		c.bytes(n.Mask)
		c.bytes(in)
	case 46: // texts of the other family, and mixed ones
		t := rawText(a, w)
		if op.V&2 != 0 {
			t = "::ffff:" + rawText(a.And(md.Max(32)), 32)
		}
		x, err := fam.AddressFromString(t)
		c.err(err)
		c.addr(x)
		y, err := ip.AddressFromString(t)
		if !c.err(err) {
			c.any(y)
		}
		t = fmt.Sprint(t, "/", p.L)
		z, err := fam.PrefixFromString(t)
		c.err(err)
		c.pfx(z)
		q, err := ip.PrefixFromString(t)
		if !c.err(err) {
			c.any(q)
		}
	}
}

func shows(l []func() string) string {
	var s []string
	for _, f := range l {
		s = append(s, f())
	}
	return strings.Join(s, "; ")
}

func (r *run) value(t *thr, op *sc.Op, rec *sc.Rec) {
	if op.K == sc.VAgain {
		l := r.kept
		if rt.RaceBuild { // what other threads keep is not handed over
			l = t.kept
		}
		if len(l) == 0 {
			rec.St = sc.Skipped
			return
		}
		k := l[len(l)-1-op.M%len(l)]
		r.again(t, op, k, "later")
		return
	}
	c := &vcall{op: op, t: t}
	r.valueCall(c)
	rt.H(0)
	once := shows(c.once)
	keep := shows(c.keep)
	rec.Str = once + " | " + keep
	for _, f := range c.end {
		f()
	}
	rt.H(0)
	if s := shows(c.keep); s != keep {
		t.bad("C26", "value-changed", op, "value", "op %d: value %s is %s after its caller overwrote what was passed and returned", op.ID, keep, s)
		return
	}
	for _, f := range c.keep {
		if k := (&kept{op, f, f()}); rt.RaceBuild {
			t.kept = append(t.kept, k)
		} else {
			r.kept = append(r.kept, k)
		}
	}
}

func (r *run) again(t *thr, op *sc.Op, k *kept, when string) {
	if s := k.show(); s != k.was {
		t.bad("C26", "value-changed", k.op, "value", "op %d: value %s is %s %s", k.op.ID, k.was, s, when)
	}
}

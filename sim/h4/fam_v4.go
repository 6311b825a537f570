package h4

import (
	"gopkg.in/addrs.v1/ipv4"

	"verifsim/md"
)

const W = 32
const V4 = true

func mkAddr(a md.A) ipv4.Address  { return ipv4.AddressFromUint32(uint32(a.Lo)) }
func unAddr(a ipv4.Address) md.A  { return md.A{Lo: uint64(a.Uint32())} }
func numAddrs(s ipv4.Set) int64   { return s.NumAddresses() }
func numAddrs_(s ipv4.Set_) int64 { return s.NumAddresses() }
func rngNum(r ipv4.Range) int64   { return r.NumAddresses() }
func walkAddrs(s ipv4.Set, f func(md.A) bool) bool {
	return s.WalkAddresses(func(a ipv4.Address) bool { return f(unAddr(a)) })
}

func famValue(c *vcall, a md.A, p md.P) {
	b := rawBytes(a, 32)
	c.addr(ipv4.AddressFromBytes(b[0], b[1], b[2], b[3]))
	c.out(mkAddr(a).Uint32())
	m := uint32(maskBits(p.L, 32, c.op.V).Lo)
	x, err := ipv4.MaskFromUint32(m)
	if !c.err(err) {
		c.mask(x)
		c.out(x.Uint32())
	}
	x, err = ipv4.MaskFromBytes(byte(m>>24), byte(m>>16), byte(m>>8), byte(m))
	if !c.err(err) {
		c.mask(x)
	}
	q := mkPrefix(p)
	c.pfx(q.Broadcast())
	c.out(q.NumAddresses())
	c.out(q.Uint32())
	c.out(q.Range().NumAddresses())
}

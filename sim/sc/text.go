package sc

import (
	"fmt"
	"strings"
)

func (a *Arg) String() string {
	if a == nil {
		return "-"
	}
	s := a.Form
	switch a.Form {
	case "addr":
		s = fmt.Sprintf("addr %x.%x", a.P.A.Hi, a.P.A.Lo)
	case "pfx":
		s = "prefix " + a.P.String()
	case "rng":
		s = fmt.Sprintf("range %x.%x-%x.%x", a.P.A.Hi, a.P.A.Lo, a.Hi.Hi, a.Hi.Lo)
	case "slot":
		s = fmt.Sprintf("immutable %d", a.S)
	case "handle":
		s = fmt.Sprintf("handle %d", a.H)
	}
	if a.Wrap {
		s = "caller's{" + s + "}"
	}
	return s
}

// String describes an operation for people.
func (o *Op) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "#%d %s", o.ID, o.K)
	switch o.K[0] {
	case 't', 'm':
		fmt.Fprintf(&b, " handle %d", o.H)
	case 'i', 's':
		fmt.Fprintf(&b, " immutable %d", o.S)
	}
	switch o.K {
	case TIns, TUpd, TIou, TGoi:
		fmt.Fprintf(&b, " %s%v = %d", o.PF, o.P, o.V)
	case TDel, TGet, TLpm, IGet, ILpm:
		fmt.Fprintf(&b, " %s%v", o.PF, o.P)
	case IDiff:
		fmt.Fprintf(&b, " with %d nil-mask %d stop %d", o.S2, o.M, o.N)
	case SEq, MEq:
		fmt.Fprintf(&b, " with %d", o.S2)
	case IClone, SClone:
		if o.M > 0 {
			fmt.Fprintf(&b, " back and forth %d", o.M)
		}
	case IMap:
		fmt.Fprintf(&b, " mapper %d", o.M)
	case IBuild, SBuild:
		fmt.Fprintf(&b, " as handle %d commit %v", o.D2, o.M == 0)
	case IWalk, SWalkP, SWalkR, SWalkA:
		fmt.Fprintf(&b, " stop %d", o.N)
	case VCall, VAgain:
		fmt.Fprintf(&b, " function %d of %v, %v, %x.%x, %d, form %d", o.M, o.P, o.Arg.P, o.Arg.Hi.Hi, o.Arg.Hi.Lo, o.N, o.V)
		return b.String()
	case SFind, SNumP, OZeroS, OZeroT:
		fmt.Fprintf(&b, " %d", o.N)
	}
	if o.Arg != nil {
		fmt.Fprintf(&b, " (%v)", o.Arg)
	}
	if o.Arg2 != nil {
		fmt.Fprintf(&b, " in (%v)", o.Arg2)
	}
	if o.D >= 0 {
		fmt.Fprintf(&b, " -> %d", o.D)
	}
	if o.Lock {
		b.WriteString(" locked")
	}
	if o.Retry > 0 {
		fmt.Fprintf(&b, " retry %d", o.Retry)
	}
	if len(o.Sub) > 0 {
		fmt.Fprintf(&b, " body{%s}", Text(o.Sub))
	}
	if f := o.Fault; f != nil {
		fmt.Fprintf(&b, " fault{%s at call %d", f.Kind, f.N)
		if len(f.Sub) > 0 {
			fmt.Fprintf(&b, ": %s", Text(f.Sub))
		}
		b.WriteString("}")
	}
	return b.String()
}

func Text(l []*Op) string {
	var s []string
	for _, o := range l {
		s = append(s, o.String())
	}
	return strings.Join(s, "; ")
}

// Clone copies a script deeply, initial contents excepted.
func (s *Script) Clone() *Script {
	n := *s
	n.Tabs = append([]TabInit(nil), s.Tabs...)
	n.Sets = append([]SetInit(nil), s.Sets...)
	n.Threads = nil
	for _, t := range s.Threads {
		n.Threads = append(n.Threads, cloneOps(t))
	}
	return &n
}

func cloneOps(l []*Op) []*Op {
	var out []*Op
	for _, o := range l {
		c := *o
		if o.Arg != nil {
			a := *o.Arg
			c.Arg = &a
		}
		if o.Arg2 != nil {
			a := *o.Arg2
			c.Arg2 = &a
		}
		c.Sub = cloneOps(o.Sub)
		if o.Fault != nil {
			f := *o.Fault
			f.Sub = cloneOps(f.Sub)
			c.Fault = &f
		}
		out = append(out, &c)
	}
	return out
}

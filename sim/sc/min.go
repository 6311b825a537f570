package sc

import (
	"verifsim/rt"
)

// Minimise shrinks a failing run while test keeps failing (returning true).
func Minimise(s *Script, pre []rt.Preempt, test func(*Script, []rt.Preempt) bool, more func() bool) (*Script, []rt.Preempt) {
	try := func(n *Script, p []rt.Preempt) bool {
		if !more() || !test(n, p) {
			return false
		}
		s, pre = n, p
		return true
	}
	// drop tries to remove parts of a list of length n, large parts first.
	drop := func(n func() int, cut func(c *Script, from, to int)) bool {
		any := false
		size := n()
		for size > 0 {
			for at := 0; at < n() && more(); {
				to := at + size
				if to > n() {
					to = n()
				}
				c := s.Clone()
				cut(c, at, to)
				if try(c, pre) {
					any = true
				} else {
					at += size
				}
			}
			size /= 2
		}
		return any
	}
	dropPre := func() bool {
		any := false
		for size := len(pre); size > 0; size /= 2 {
			for at := 0; at < len(pre) && more(); {
				to := at + size
				if to > len(pre) {
					to = len(pre)
				}
				p := append(append([]rt.Preempt(nil), pre[:at]...), pre[to:]...)
				if try(s, p) {
					any = true
				} else {
					at += size
				}
			}
		}
		return any
	}
	for round := 0; round < 6 && more(); round++ {
		any := false
		for t := range s.Threads {
			t := t
			if len(s.Threads[t]) == 0 {
				continue
			}
			c := s.Clone()
			c.Threads[t] = nil
			if try(c, pre) {
				any = true
			}
		}
		for t := range s.Threads {
			t := t
			if drop(func() int { return len(s.Threads[t]) }, func(c *Script, a, b int) {
				c.Threads[t] = append(c.Threads[t][:a], c.Threads[t][b:]...)
			}) {
				any = true
			}
		}
		if dropPre() {
			any = true
		}
		for i := range s.Tabs {
			i := i
			if drop(func() int { return len(s.Tabs[i].E) }, func(c *Script, a, b int) {
				c.Tabs[i].E = cutS(c.Tabs[i].E, a, b)
			}) {
				any = true
			}
			if drop(func() int { return len(s.Tabs[i].Warm) }, func(c *Script, a, b int) {
				c.Tabs[i].Warm = cutS(c.Tabs[i].Warm, a, b)
			}) {
				any = true
			}
		}
		for i := range s.Sets {
			i := i
			if drop(func() int { return len(s.Sets[i].Ins) }, func(c *Script, a, b int) {
				c.Sets[i].Ins = cutS(c.Sets[i].Ins, a, b)
			}) {
				any = true
			}
		}
		// parts of operations
		for i := 0; more(); i++ {
			ops := s.all()
			if i >= len(ops) {
				break
			}
			at := func(c *Script) *Op { return c.all()[i] }
			drop(func() int { return len(at(s).Sub) }, func(c *Script, a, b int) {
				o := at(c)
				o.Sub = append(o.Sub[:a], o.Sub[b:]...)
			})
			edit := func(want bool, f func(o *Op)) {
				if !want {
					return
				}
				c := s.Clone()
				f(at(c))
				if try(c, pre) {
					any = true
				}
			}
			o := ops[i]
			edit(o.Fault != nil, func(o *Op) { o.Fault = nil })
			o = at(s)
			if o.Fault != nil {
				if drop(func() int { return len(at(s).Fault.Sub) }, func(c *Script, a, b int) {
					o := at(c)
					o.Fault.Sub = append(o.Fault.Sub[:a], o.Fault.Sub[b:]...)
				}) {
					any = true
				}
			}
			edit(o.Retry > 0, func(o *Op) { o.Retry = 0 })
			edit(o.A != 0, func(o *Op) { o.A = 0 })
			edit(o.PF == "wrap", func(o *Op) { o.PF = "" })
			edit(o.Tag != 0, func(o *Op) { o.Tag = 0 })
			edit(o.P != o.P.Norm(s.W()), func(o *Op) { o.P = o.P.Norm(s.W()) })
			edit(o.Arg != nil && o.Arg.Wrap && o.Arg.Form != "handle", func(o *Op) { o.Arg.Wrap = false })
			edit((o.K == IWalk || o.K == IDiff || o.K[0] == 's' && (o.K == SWalkP || o.K == SWalkR)) && o.N >= 0, func(o *Op) { o.N = -1 })
			edit(o.K == IDiff && o.M != 0, func(o *Op) { o.M = 0 })
		}
		for i := 0; i < len(pre) && more(); i++ {
			if pre[i].Stall != 0 {
				p := append([]rt.Preempt(nil), pre...)
				p[i].Stall = 0
				if try(s, p) {
					any = true
				}
			}
		}
		if s.Copies > 1 {
			c := s.Clone()
			c.Copies = 1
			if try(c, pre) {
				any = true
			}
		}
		if len(s.Univ) > 0 {
			c := s.Clone()
			c.Univ = nil
			try(c, pre)
		}
		if !any {
			break
		}
	}
	return s, pre
}

func cutS[T any](l []T, a, b int) []T {
	return append(append([]T(nil), l[:a]...), l[b:]...)
}

func (s *Script) all() (l []*Op) {
	s.Walk(func(o *Op) { l = append(l, o) })
	return l
}

package md

import (
	"math/rand"
	"testing"
)

func TestSegments(t *testing.T) {
	for n := 0; n < 20000; n++ {
		r := rand.New(rand.NewSource(int64(n)))
		w := 32
		if n%2 == 0 {
			w = 128
		}
		base := A{r.Uint64(), r.Uint64()}.And(Max(w))
		if n%3 == 0 {
			base = Max(w)
		}
		if n%3 == 1 {
			base = A{}
		}
		top := r.Intn(w - 5)
		var es []E
		for i := r.Intn(12); i > 0; i-- {
			l := top + r.Intn(6)
			if r.Intn(6) == 0 {
				l = r.Intn(w + 1)
			}
			es = append(es, E{P{P{base, top}.First(w).Or(A{r.Uint64(), r.Uint64()}.And(Low(w - top))), l}.Norm(w), r.Intn(2)})
		}
		tb := Table(es, w)
		segs, up := tb.Segments(w)
		for i, e := range tb {
			if e.P.L == 0 {
				if up[i] != -1 {
					t.Fatal("up")
				}
				continue
			}
			u, ok := tb.LPM(P{e.P.A, e.P.L - 1}.Norm(w), w)
			if ok != (up[i] >= 0) || ok && tb[up[i]] != u {
				t.Fatal("up", tb, i, up)
			}
		}
		var pts []A
		for _, e := range tb {
			pts = append(pts, e.P.First(w), e.P.Last(w), e.P.Last(w).Inc().And(Max(w)), e.P.First(w).Dec().And(Max(w)))
		}
		pts = append(pts, A{}, Max(w))
		for _, a := range pts {
			x, ok := tb.LPM(P{a, w}, w)
			var s Seg
			for _, q := range segs {
				if !a.Less(q.Lo) {
					s = q
				}
			}
			if s.OK != ok || ok && s.V != x.V {
				t.Fatalf("%d %v at %v: %v %v", n, tb, a, x, s)
			}
		}
		for i := 1; i < len(segs); i++ {
			if !segs[i-1].Lo.Less(segs[i].Lo) || segs[i-1].OK == segs[i].OK && segs[i-1].V == segs[i].V {
				t.Fatal("norm", segs)
			}
		}
	}
}

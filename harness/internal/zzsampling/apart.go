package zzsampling

import (
	"github.com/apache/datasketches-go/sampling"
	z "github.com/apache/datasketches-go/internal/zzsym"
)

// Apart: the sources of a union, the union and its results do not change each other, nor do a
// reservoir and its copy.
//
// zz: C29 q Apart 4 4 10 4 40
// zz: C29 q Apart 4 4 40 4 10
// zz: C29 q Apart 4 4 3 4 40
// zz: C29 q Apart 4 4 3 4 2
// zz: C29 q Apart 6 4 30 8 50
func Apart(maxK, k1, n1, k2, n2 int) {
	z.Merging(false)
	z.Coin = z.CoinZero
	script(z.Choose("script", 3))
	if z.Choose("kind", 2) == 0 {
		a, sa := fed(k1, n1, 0)
		b, sb := fed(k2, n2, 1000)
		was, wasB := a.Samples(), b.Samples()
		c := a.Copy()
		u := unionOf(maxK)
		must(u.UpdateSketch(a), "union")
		r0, err := u.Result()
		must(err, "result")
		r0s, r0n := r0.Samples(), r0.N()
		must(u.UpdateSketch(b), "union")
		z.Assert(same(a.Samples(), was) && a.N() == sa.n && a.K() == k1, "the first source of a union is left as it was")
		z.Assert(same(b.Samples(), wasB) && b.N() == sb.n && b.K() == k2, "the second source of a union is left as it was")
		z.Assert(same(r0.Samples(), r0s) && r0.N() == r0n, "a result is left as it was when the union goes on")
		r, err := u.Result()
		must(err, "result")
		rs, rn := r.Samples(), r.N()
		for i := int64(0); i < 12; i++ {
			must(a.Update(5000+i), "update")
			must(b.Update(6000+i), "update")
		}
		z.Assert(same(r.Samples(), rs) && r.N() == rn, "a result is left as it was when the sources are updated")
		q, err := u.Result()
		must(err, "result")
		z.Assert(same(q.Samples(), rs) && q.N() == rn, "a union is left as it was when its sources are updated")
		z.Assert(same(c.Samples(), was) && c.N() == sa.n, "a copy is left as it was when its source is updated")
		as := a.Samples()
		for i := int64(0); i < 12; i++ {
			must(c.Update(7000+i), "update")
			must(u.Update(8000+i), "update")
		}
		z.Assert(same(a.Samples(), as) && a.N() == sa.n+12, "the source is left as it was when its copy is updated")
		return
	}
	mk := func(k, n, base int) *varopt {
		s := varoptOf(k, sampling.ResizeX8)
		for i := 0; i < n; i++ {
			must(s.Update(int64(base+i), weight(base&1, i)), "update")
		}
		return s
	}
	keep := func(s *varopt, what string) func() {
		x, w := samples(s)
		n, h, r := s.N(), s.H(), s.R()
		return func() {
			y, v := samples(s)
			z.Assert(same(x, y) && sameWeights(w, v) && s.N() == n && s.H() == h && s.R() == r, what)
		}
	}
	a, b := mk(k1, n1, 0), mk(k2, n2, 1001)
	ka, kb := keep(a, "the first source of a union is left as it was"), keep(b, "the second source of a union is left as it was")
	u := varoptUnion(maxK)
	must(u.Update(a), "union")
	r0, err := u.Result()
	must(err, "result")
	k0 := keep(r0, "a result is left as it was when the union goes on")
	must(u.Update(b), "union")
	ka()
	kb()
	k0()
	r, err := u.Result()
	must(err, "result")
	kr := keep(r, "a result is left as it was when the sources are updated")
	for i := 0; i < 12; i++ {
		must(a.Update(int64(5000+i), weight(2, i)), "update")
		must(b.Update(int64(6000+i), weight(2, i)), "update")
	}
	kr()
	ka, kb = keep(a, "the first source is left as it was when the result is updated"), keep(b, "the second source is left as it was when the result is updated")
	for i := 0; i < 12; i++ {
		must(r.Update(int64(7000+i), weight(3, i)), "update")
	}
	ka()
	kb()
}

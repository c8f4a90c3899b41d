package zzreq

import (
	z "github.com/apache/datasketches-go/internal/zzsym"
)

// Life: a sketch that was reset behaves as a new one; a merged sketch and its operand do not share
// anything.
//
// zz: C29 q Life 4 1 5 60 1
// zz: C29 q Life 4 0 60 30 1
// zz: C29 q Life 6 1 100 50 1
// zz: C29 q Life 4 1 30 60 0
func Life(k, hra, n1, n2, sym int) {
	z.Merging(false)
	z.Coin = z.CoinScript
	script := uint64(z.Choose("coins", 4)) * 0x5555
	z.Script = script
	as, bs := items(n1, 0, 2, 1), items(n2, sym, 2, 2)
	a, b, c := newSketch(k, hra == 1), newSketch(k, hra == 1), newSketch(k, hra == 1)
	feed(a, as)
	_, err := a.Rank(2)
	must(err, "rank")
	a.Reset()
	z.Assert(a.IsEmpty() && a.N() == 0 && a.NumRetained() == 0 && !a.IsEstimationMode() && len(a.All()) == 0, "a sketch that was reset is empty")
	_, e1 := a.MinItem()
	_, e2 := a.MaxItem()
	_, e3 := a.Quantile(0.5)
	z.Assert(e1 != nil && e2 != nil && e3 != nil, "a sketch that was reset has no extremes and no quantiles")
	z.Script, z.Flips = script, 0
	feed(a, bs)
	z.Script, z.Flips = script, 0
	feed(b, bs)
	held(viewOf(b), a, "a sketch that was reset behaves as a new one")

	feed(c, as)
	must(c.Merge(b), "merge")
	vb, vc := viewOf(b), viewOf(c)
	feed(c, as)
	held(vb, b, "updating a merged sketch leaves its operand as it was")
	must(c.Merge(b), "merge")
	held(vb, b, "merging again leaves the operand as it was")
	vc = viewOf(c)
	feed(b, as)
	held(vc, c, "updating an operand leaves the merged sketch as it was")
	vb = viewOf(b)
	c.Reset()
	feed(c, as)
	held(vb, b, "a reset leaves the operand as it was")
}

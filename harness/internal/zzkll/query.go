package zzkll

import (
	"math"

	"github.com/apache/datasketches-go/common"
	z "github.com/apache/datasketches-go/internal/zzsym"
	"github.com/apache/datasketches-go/kll"
)

type longs = *kll.ItemsSketch[int64]

func newLongs(k, m int) longs {
	s, err := kll.NewKllItemsSketch[int64](uint16(k), uint8(m), common.ItemSketchLongComparator(false), common.ItemSketchLongSerDe{})
	must(err, "new")
	return s
}

func feedLongs(s longs, ks []uint64) {
	for _, k := range ks {
		s.Update(int64(k) - 30000)
	}
}

type wt struct {
	v int64
	w uint64
}

func retained(s longs) []wt {
	var r []wt
	i := s.GetIterator()
	for i.Next() {
		r = append(r, wt{i.GetQuantile(), uint64(i.GetWeight())})
	}
	return r
}

func weight(r []wt, q int64, inclusive bool) uint64 {
	var t uint8
	for _, x := range r {
		c := x.v < q
		if inclusive {
			c = x.v <= q
		}
		t += uint8(z.Ite(c, x.w, 0))
	}
	return uint64(t)
}

// ranks asserts that the rank of q is the weight at or below it.
func ranks(s longs, r []wt, q int64, label string) {
	n := s.GetN()
	for _, inc := range []bool{true, false} {
		x, err := s.GetRank(q, inc)
		must(err, "rank")
		nat := uint64(math.Round(x * float64(n)))
		z.Assert(weight(r, q, inc) == nat, label+": rank is the retained weight below the item")
		z.Assert(float64(nat)/float64(n) == x, label+": rank is normalized by n")
	}
}

// quantile asserts that the quantile of the natural rank t/2 is the inverse of the rank.
func quantile(s longs, r []wt, t int, label string) {
	n := s.GetN()
	for _, inc := range []bool{true, false} {
		q, err := s.GetQuantile(float64(t)/float64(2*n), inc)
		must(err, "quantile")
		in := false
		for _, x := range r {
			in = z.Or(in, x.v == q)
		}
		z.Assert(in, label+": a quantile is a retained item")
		le, lt := 2*weight(r, q, true), 2*weight(r, q, false)
		if inc {
			z.Assert(le >= uint64(t), label+": the rank of the quantile reaches the rank asked for")
			if t > 0 {
				z.Assert(lt < uint64(t), label+": the quantile is the least such item")
			} else {
				z.Assert(lt == 0, label+": the quantile of rank 0 is the least item")
			}
		} else {
			z.Assert(lt <= uint64(t), label+": the exclusive rank of the quantile is within the rank asked for")
			if t < 2*int(n) {
				z.Assert(le > uint64(t), label+": the quantile is the greatest such item")
			} else {
				z.Assert(le == 2*n, label+": the quantile of rank 1 is the greatest item")
			}
		}
	}
}

func distribution(s longs, r []wt, q1, q2 int64, label string) {
	n := s.GetN()
	for _, inc := range []bool{true, false} {
		cdf, err := s.GetCDF([]int64{q1, q2}, inc)
		must(err, "cdf")
		pmf, err := s.GetPMF([]int64{q1, q2}, inc)
		must(err, "pmf")
		z.Assert(len(cdf) == 3 && len(pmf) == 3 && cdf[2] == 1, label+": the CDF ends with 1")
		rs, err := s.GetRanks([]int64{q1, q2}, inc)
		must(err, "ranks")
		z.Assert(rs[0] == cdf[0] && rs[1] == cdf[1], label+": the CDF is the ranks")
		z.Assert(pmf[0] == cdf[0] && pmf[1] == cdf[1]-cdf[0] && pmf[2] == 1-cdf[1], label+": the PMF is the differences of the CDF")
		nat := uint64(math.Round(cdf[1] * float64(n)))
		z.Assert(weight(r, q2, inc) == nat, label+": the CDF is the retained weight")
		nat = uint64(math.Round(cdf[0] * float64(n)))
		z.Assert(weight(r, q1, inc) == nat, label+": the CDF is the retained weight")
	}
}

func same(a, b []wt) bool {
	ok := len(a) == len(b)
	for i := range a {
		ok = ok && a[i].w == b[i].w
		ok = z.And(ok, a[i].v == b[i].v)
	}
	return ok
}

func build(k, m, n, sym, where int) (longs, []wt) {
	z.Merging(false)
	z.Coin = z.CoinOne
	s := newLongs(k, m)
	if n > 20 && sym == 0 {
		z.Coin = z.CoinFork
	}
	feedLongs(s, keys(n, sym, where, 4))
	return s, retained(s)
}

// Ranks: rank of an arbitrary item, before and after other queries and after a further update.
//
// zz: C15 q Ranks 8 8 1 1 0
// zz: C15 q Ranks 8 8 2 2 0
// zz: C15 q Ranks 8 8 3 3 0
// zz: C15 q Ranks 8 8 8 1 0
// zz: C15 q Ranks 8 8 9 1 1
// zz: C15 q Ranks 8 8 17 1 2
// zz: C15 q Ranks 8 8 38 0 0
// zz: C15 q Ranks 8 2 41 0 0
// zz: C15 q Ranks 16 4 60 1 0
// zz: C15 t Ranks 8 8 17 2 2
// zz: C15 t Ranks 8 2 30 2 2
func Ranks(k, m, n, sym, where int) {
	s, r := build(k, m, n, sym, where)
	q := int64(z.Nondet("query", 16)) - 30000
	ranks(s, r, q, "rank")
	for _, x := range []float64{0, 0.4, 1} {
		_, err := s.GetQuantile(x, true)
		must(err, "quantile")
	}
	_, err := s.GetQuantiles([]float64{0.1, 0.9}, false)
	must(err, "quantiles")
	_, err = s.GetPMF([]int64{3}, false)
	must(err, "pmf")
	_, err = s.GetPartitionBoundaries(3, true)
	must(err, "partition boundaries")
	z.Assert(same(r, retained(s)), "queries do not change what is retained")
	ranks(s, r, q, "rank after other queries")
	s.Update(77)
	z.Assert(s.GetN() == uint64(n)+1, "n after an update")
	ranks(s, retained(s), q, "rank after an update")
	o := newLongs(k, m)
	o.Update(-5)
	s.Merge(o)
	ranks(s, retained(s), q, "rank after a merge")
	s.Reset()
	s.Update(12)
	ranks(s, []wt{{12, 1}}, q, "rank after a reset")
}

// Quantiles: at every natural rank and between.
//
// zz: C15 q Quantiles 8 8 1 1 0
// zz: C15 q Quantiles 8 8 3 3 0
// zz: C15 q Quantiles 8 8 7 2 0
// zz: C15 q Quantiles 8 8 9 1 1
// zz: C15 q Quantiles 8 8 17 1 2
// zz: C15 q Quantiles 8 8 38 0 0
// zz: C15 q Quantiles 8 2 41 0 0
// zz: C15 t Quantiles 8 8 17 2 2
// zz: C15 t Quantiles 16 4 60 1 2
func Quantiles(k, m, n, sym, where int) {
	s, r := build(k, m, n, sym, where)
	t := z.Choose("rank", 2*n+1)
	if z.Choose("boundaries first", 2) == 1 {
		_, err := s.GetPartitionBoundaries(2, false)
		must(err, "partition boundaries")
	}
	quantile(s, r, t, "quantile")
	x := float64(t) / float64(2*n)
	for _, inc := range []bool{true, false} {
		q, err := s.GetQuantile(x, inc)
		must(err, "quantile")
		qs, err := s.GetQuantiles([]float64{x, 1}, inc)
		must(err, "quantiles")
		z.Assert(z.And(len(qs) == 2, qs[0] == q), "the quantiles asked for together are those asked for singly")
	}
	_, err := s.GetQuantile(-0.1, true)
	_, err2 := s.GetQuantile(1.1, true)
	z.Assert(err != nil && err2 != nil, "ranks outside 0..1 are refused")
}

// Distribution: CDF and PMF at two arbitrary split points.
//
// zz: C15 q Distribution 8 8 1 1 0
// zz: C15 q Distribution 8 8 5 1 0
// zz: C15 q Distribution 8 8 9 0 0
// zz: C15 q Distribution 8 8 25 0 0
// zz: C15 t Distribution 8 2 41 0 0
// zz: C15 t Distribution 8 8 17 1 2
func Distribution(k, m, n, sym, where int) {
	s, r := build(k, m, n, sym, where)
	q1 := int64(z.Nondet("query", 16)) - 30000
	q2 := int64(z.Nondet("query", 16)) - 30000
	z.Assume(q1 < q2)
	distribution(s, r, q1, q2, "distribution")
	_, err := s.GetCDF([]int64{q2, q1}, true)
	_, err2 := s.GetPMF([]int64{q1, q1}, true)
	z.Assert(err != nil && err2 != nil, "split points that do not increase are refused")
}

// Boundaries: partition boundaries run from the minimum to the maximum over quantiles.
//
// zz: C15 q Boundaries 8 8 1 1 0 1
// zz: C15 q Boundaries 8 8 5 1 0 2
// zz: C15 q Boundaries 8 8 17 1 0 3
// zz: C15 q Boundaries 8 8 38 0 0 4
func Boundaries(k, m, n, sym, where, parts int) {
	s, r := build(k, m, n, sym, where)
	mn, err := s.GetMinItem()
	must(err, "min")
	mx, err := s.GetMaxItem()
	must(err, "max")
	for _, inc := range []bool{true, false} {
		b, err := s.GetPartitionBoundaries(parts, inc)
		must(err, "partition boundaries")
		v := b.GetBoundaries()
		z.Assert(len(v) == parts+1, "one more boundary than partitions")
		z.Assert(z.And(v[0] == mn, v[parts] == mx), "the boundaries start with the minimum and end with the maximum")
		for i := 1; i < parts; i++ {
			in := z.Or(v[i] == mn, v[i] == mx)
			for _, x := range r {
				in = z.Or(in, x.v == v[i])
			}
			z.Assert(in, "a boundary is a retained item")
			z.Assert(z.And(v[i-1] <= v[i], v[i] <= v[i+1]), "the boundaries ascend")
		}
	}
	z.Assert(same(r, retained(s)), "queries do not change what is retained")
	sv, err := s.GetSortedView()
	must(err, "sorted view")
	total := int64(0)
	si := sv.Iterator()
	i := 0
	asc := true
	var prev int64
	for si.Next() {
		if i > 0 {
			asc = z.And(asc, prev <= si.GetQuantile())
		}
		prev = si.GetQuantile()
		total += si.GetWeight()
		z.Assert(weight(r, prev, true) >= uint64(total), "the cumulative weight is that of the items up to here")
		i++
	}
	z.Assert(asc, "the sorted view ascends")
	z.Assert(uint64(total) == s.GetN() && i == len(r), "the sorted view holds what is retained")
}

package zzreq

import (
	"math"

	z "github.com/apache/datasketches-go/internal/zzsym"
	"github.com/apache/datasketches-go/req"
)

func search(inclusive bool) []req.SearchCriteriaOptionFunc {
	if inclusive {
		return nil
	}
	return []req.SearchCriteriaOptionFunc{req.WithExclusiveSearch()}
}

// view is what queries are about: the retained items, and the extremes, which count as one item
// each when they are no longer retained.
type view struct {
	n        int64
	items    []req.Item
	min, max float32
}

func viewOf(s *req.Sketch) view {
	mn, e1 := s.MinItem()
	mx, e2 := s.MaxItem()
	must(e1, "min")
	must(e2, "max")
	return view{s.N(), s.All(), mn, mx}
}

// weight is the weight below q.
func (v view) weight(q float32, inclusive bool) int64 {
	if q < v.min || !inclusive && q <= v.min {
		return 0
	}
	if q > v.max || inclusive && q >= v.max {
		return v.n
	}
	var w int64
	keptMax := false
	for _, x := range v.items {
		if x.Quantile < q || inclusive && x.Quantile <= q {
			w += x.Weight
		}
		keptMax = keptMax || x.Quantile == v.max
	}
	if !keptMax && w > v.n-1 {
		w = v.n - 1
	}
	if w < 1 {
		w = 1
	}
	return w
}

func (v view) same(o view) bool {
	ok := v.n == o.n && len(v.items) == len(o.items)
	for i := range v.items {
		ok = ok && v.items[i].Weight == o.items[i].Weight && v.items[i].Quantile == o.items[i].Quantile
	}
	return ok
}

// held asserts that s holds what it held: the same items, perhaps in another order.
func held(v view, s *req.Sketch, label string) {
	o := viewOf(s)
	ok := v.n == o.n && len(v.items) == len(o.items) && v.min == o.min && v.max == o.max
	for _, x := range v.items {
		a, b := 0, 0
		for _, y := range v.items {
			if x == y {
				a++
			}
		}
		for _, y := range o.items {
			if x == y {
				b++
			}
		}
		ok = ok && a == b
	}
	z.Assert(ok, label)
}

func ranks(s *req.Sketch, v view, q float32, label string) {
	for _, inc := range []bool{true, false} {
		x, err := s.Rank(q, search(inc)...)
		if math.IsInf(float64(q), 0) {
			z.Assert(err != nil, label+": infinite items are refused")
			continue
		}
		must(err, "rank")
		z.Assert(x == float64(v.weight(q, inc))/float64(v.n), label+": rank is the retained weight below the item")
		rs, err := s.Ranks([]float32{q, 1.5}, search(inc)...)
		must(err, "ranks")
		z.Assert(len(rs) == 2 && rs[0] == x && rs[1] == float64(v.weight(1.5, inc))/float64(v.n), label+": ranks are those asked for singly")
	}
}

// quantile asserts that the quantile of the natural rank t/2 is the inverse of the rank.
func quantile(s *req.Sketch, v view, t int, label string) {
	n := v.n
	x := float64(t) / float64(2*n)
	for _, inc := range []bool{true, false} {
		q, err := s.Quantile(x, search(inc)...)
		must(err, "quantile")
		in := q == v.min || q == v.max
		for _, y := range v.items {
			in = in || y.Quantile == q
		}
		z.Assert(in, label+": a quantile is a retained item or an extreme")
		le, lt := 2*v.weight(q, true), 2*v.weight(q, false)
		if inc {
			z.Assert(le >= int64(t), label+": the rank of the quantile reaches the rank asked for")
			z.Assert(lt < int64(t) || t == 0 && lt == 0, label+": the quantile is the least such item")
		} else {
			z.Assert(lt <= int64(t), label+": the exclusive rank of the quantile is within the rank asked for")
			z.Assert(le > int64(t) || t == 2*int(n) && le == 2*n, label+": the quantile is the greatest such item")
		}
		qs, err := s.Quantiles([]float64{x, 1, 0}, search(inc)...)
		must(err, "quantiles")
		z.Assert(len(qs) == 3 && qs[0] == q && qs[1] == v.max && qs[2] == v.min, label+": quantiles are those asked for singly")
	}
}

func distribution(s *req.Sketch, v view, q1, q2 float32, label string) {
	for _, inc := range []bool{true, false} {
		if math.IsInf(float64(q1), 0) || math.IsInf(float64(q2), 0) {
			continue
		}
		cdf, err := s.CDF([]float32{q1, q2}, inc)
		must(err, "cdf")
		pmf, err := s.PMF([]float32{q1, q2}, search(inc)...)
		must(err, "pmf")
		r1 := float64(v.weight(q1, inc)) / float64(v.n)
		r2 := float64(v.weight(q2, inc)) / float64(v.n)
		z.Assert(len(cdf) == 3 && cdf[0] == r1 && cdf[1] == r2 && cdf[2] == 1, label+": the CDF is the ranks, and 1")
		z.Assert(len(pmf) == 3 && pmf[0] == r1 && pmf[1] == r2-r1 && pmf[2] == 1-r2, label+": the PMF is the differences of the CDF")
	}
}

func build(k, hra, n, sym, where int) (s *req.Sketch, its, fixed []float32) {
	z.Merging(false)
	z.Coin = z.CoinOne
	if sym == 0 {
		z.Coin = z.CoinFork
	}
	s = newSketch(k, hra == 1)
	its, fixed = items2(n, sym, where, 4)
	feed(s, its)
	return
}

// Ranks of an arbitrary item, before and after other queries and further updates.
//
// zz: C18 q Ranks 4 1 1 1 0
// zz: C18 q Ranks 4 0 2 2 0
// zz: C18 q Ranks 4 1 9 1 1
// zz: C18 q Ranks 4 1 26 1 1
// zz: C18 q Ranks 4 0 26 1 2
// zz: C18 q Ranks 4 1 60 0 0
// zz: C18 q Ranks 4 0 60 0 0
// zz: C18 q Ranks 6 0 100 0 0
// zz: C18 t Ranks 4 1 40 1 1
// zz: C18 q Ranks 6 1 120 0 0
// zz: C18 t Ranks 4 0 3 3 0 | budget=600
func Ranks(k, hra, n, sym, where int) {
	s, its, fixed := build(k, hra, n, sym, where)
	v := viewOf(s)
	q := z.AmongF32("query", append(fixed, 7.25, -3.25, 1, 1.5, 12))
	ranks(s, v, q, "rank")
	for _, x := range []float64{0, 0.4, 1} {
		_, err := s.Quantile(x)
		must(err, "quantile")
	}
	_, err := s.PMF([]float32{3}, req.WithExclusiveSearch())
	must(err, "pmf")
	held(v, s, "queries do not change what is held")
	ranks(s, v, q, "rank after other queries")
	must(s.Update(7.25), "update")
	ranks(s, viewOf(s), q, "rank after an update")
	ranks(s, viewOf(s), 7.25, "rank of the last item")
	o := newSketch(k, hra == 1)
	must(o.Update(-3.25), "update")
	must(s.Merge(o), "merge")
	ranks(s, viewOf(s), q, "rank after a merge")
	ranks(s, viewOf(s), -3.25, "rank of the merged item")
	// a query between updates leaves the sketch as it would be without
	a, b := newSketch(k, hra == 1), newSketch(k, hra == 1)
	z.Coin = z.CoinOne
	for i, x := range its {
		must(a.Update(x), "update")
		must(b.Update(x), "update")
		if i%5 == 2 {
			_, err := b.Rank(1)
			must(err, "rank")
		}
	}
	held(viewOf(a), b, "queries between updates leave the sketch as it would be without them")
	s.Reset()
	_, err = s.Rank(1)
	z.Assert(err != nil, "an empty sketch has no ranks")
	must(s.Update(12), "update")
	ranks(s, view{1, []req.Item{{Quantile: 12, Weight: 1}}, 12, 12}, q, "rank after a reset")
}

// Quantiles at every natural rank and between.
//
// zz: C18 q Quantiles 4 1 1 1 0
// zz: C18 q Quantiles 4 0 3 2 0
// zz: C18 q Quantiles 4 1 9 1 1
// zz: C18 q Quantiles 4 1 26 1 1
// zz: C18 q Quantiles 4 0 26 1 2
// zz: C18 q Quantiles 4 1 60 0 0
// zz: C18 q Quantiles 4 0 60 0 0
// zz: C18 q Quantiles 6 1 120 0 0
// zz: C18 q Quantiles 4 1 40 1 2
func Quantiles(k, hra, n, sym, where int) {
	s, _, _ := build(k, hra, n, sym, where)
	v := viewOf(s)
	t := z.Choose("rank", 2*n+1)
	quantile(s, v, t, "quantile")
	_, err := s.Quantile(-0.1)
	_, err2 := s.Quantile(1.1)
	z.Assert(err != nil && err2 != nil, "ranks outside 0..1 are refused")
	held(v, s, "queries do not change what is held")
}

// Distribution: CDF and PMF at two arbitrary split points.
//
// zz: C18 q Distribution 4 1 1 1 0
// zz: C18 q Distribution 4 0 8 0 0
// zz: C18 q Distribution 4 1 25 0 0
// zz: C18 q Distribution 4 0 50 0 0
// zz: C18 t Distribution 4 1 60 0 0
// zz: C18 t Distribution 4 0 6 1 0
func Distribution(k, hra, n, sym, where int) {
	s, _, fixed := build(k, hra, n, sym, where)
	v := viewOf(s)
	q1, q2 := z.AmongF32("split", fixed), z.AmongF32("split", fixed)
	if q1 < q2 {
		distribution(s, v, q1, q2, "distribution")
	} else {
		_, err := s.CDF([]float32{q1, q2}, true)
		_, err2 := s.PMF([]float32{q1, q2})
		z.Assert(err != nil && err2 != nil, "split points that do not increase are refused")
	}
	_, err := s.CDF([]float32{float32(math.NaN())}, true)
	_, err2 := s.Rank(float32(math.NaN()))
	z.Assert(err != nil && err2 != nil, "NaN is refused")
}

// Bounds: rank and quantile bounds enclose the rank and its quantile.
//
// zz: C18 q Bounds 4 1 10
// zz: C18 q Bounds 4 0 30
// zz: C18 q Bounds 4 1 60
// zz: C18 q Bounds 8 0 120
// zz: C18 q Bounds 64 1 500
func Bounds(k, hra, n int) {
	s, _, _ := build(k, hra, n, 0, 0)
	r := float64(z.Choose("rank", 41)) / 40
	d := z.Choose("deviations", 3) + 1
	opt := req.WithNumStdDev(d)
	lo, err := s.RankLowerBound(r, opt)
	must(err, "rank lower bound")
	hi, err := s.RankUpperBound(r, opt)
	must(err, "rank upper bound")
	z.Assert(0 <= lo && lo <= r && r <= hi && hi <= 1, "rank bounds are ranks that enclose the rank")
	if !s.IsEstimationMode() {
		z.Assert(lo == r && hi == r, "ranks are exact before the first compaction")
	}
	ql, err := s.QuantileLowerBound(r, opt)
	must(err, "quantile lower bound")
	qh, err := s.QuantileUpperBound(r, opt)
	must(err, "quantile upper bound")
	q, err := s.Quantile(r)
	must(err, "quantile")
	z.Assert(ql <= q && q <= qh, "quantile bounds enclose the quantile")
}

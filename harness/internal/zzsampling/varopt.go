package zzsampling

import (
	"bytes"

	z "github.com/apache/datasketches-go/internal/zzsym"
	"github.com/apache/datasketches-go/sampling"
)

type varopt = sampling.VarOptItemsSketch[int64]

// patterns of weights, repeated over a stream.
var patterns = [][]float64{
	{1},
	{1, 2, 3},
	{9, 1, 1, 5, 2},
	{1, 1, 100, 3, 100},
	{1, 2, 4, 8, 16, 32, 64},
	{64, 32, 16, 8, 4, 2, 1},
	{0.7, 2.8, 0.7, 0.7, 0.7},
	{0.1, 0.3, 0.2},
	{1.0 / 3, 2.0 / 3, 1, 1.0 / 3},
	{5, 5, 5, 1, 1, 1, 20},
	{0.001, 0.002, 0.003, 0.001},
	{1e10 / 3, 1e10, 7e9 / 3, 1e8 / 3, 1e10 / 3},
	{1e12 / 7, 1e12 / 7, 1e12 / 7, 1e12 / 11},
	{1e300, 1e-300, 1},
}

func weight(p, i int) float64 { return patterns[p][i%len(patterns[p])] }

// item number i of stream base is base+i; what lists the weights of the items.
type what map[int64]float64

func near(a, b, scale float64) bool {
	d := a - b
	return d <= 1e-9*scale && d >= -1e-9*scale
}

// plan asserts that s is a VarOpt sample of the fed items of the given weights.
func plan(s *varopt, k int, items []int64, w []float64) {
	n := len(items)
	z.Assert(s.N() == int64(n), "n is the number of items fed")
	z.Assert(s.K() == k, "k is kept")
	z.Assert(s.NumSamples() == min(n, k), "there are min(n, k) samples")
	sample(s, items, w)
	if n <= k {
		z.Assert(s.H() == n && s.R() == 0, "every item is held while there is room")
		z.Cover("exact")
	} else {
		z.Assert(s.R() > 0, "the reservoir is in use")
		z.Cover("sampling")
	}
}

// sample asserts that the samples of s come from items and stand for their total weight.
func sample(s *varopt, items []int64, w []float64) {
	z.Assert(s.H()+s.R() == s.NumSamples(), "the regions make up the samples")
	var got []int64
	tau := -1.0
	sum, total := 0.0, 0.0
	for _, x := range w {
		total += x
	}
	for q := range s.All() {
		if len(got) < s.H() {
			ok := false
			for i, x := range items {
				ok = z.Or(ok, z.And(x == q.Item, w[i] == q.Weight))
			}
			z.Assert(ok, "a heavy item keeps its weight")
		} else {
			z.Assert(tau < 0 || q.Weight == tau, "the reservoir items have the same weight")
			tau = q.Weight
			ok := false
			for i, x := range items {
				if w[i] <= tau*(1+1e-9) {
					ok = z.Or(ok, x == q.Item)
				}
			}
			z.Assert(ok, "a reservoir item is an item fed that is not heavier than tau")
		}
		for _, y := range got {
			z.Assert(q.Item != y, "no item is sampled twice")
		}
		got = append(got, q.Item)
		sum += q.Weight
	}
	z.Assert(len(got) == s.NumSamples(), "the number of samples agrees with iteration")
	z.Assert(near(sum, total, total), "the weights of the samples sum to the weight fed")
	if s.R() == 0 {
		z.Assert(len(got) == len(items), "every item is held while there is room")
		return
	}
	// heavy items are kept
	i := 0
	for q := range s.All() {
		if i < s.H() {
			z.Assert(q.Weight >= tau*(1-1e-9), "a heavy item is not lighter than tau")
		}
		i++
	}
	for i, x := range items {
		if w[i] > tau*(1+1e-9) {
			in := false
			for _, y := range got {
				in = z.Or(in, x == y)
			}
			z.Assert(in, "an item heavier than tau is kept")
		}
	}
}

func varoptOf(k int, rf sampling.ResizeFactor) *varopt {
	s, err := sampling.NewVarOptItemsSketch[int64](uint(k), sampling.WithResizeFactor(rf))
	must(err, "new sketch")
	return s
}

// Weighted: n updates of weights from the patterns [lo,hi), from an arbitrary place in the
// pattern, the last free of them with any random outcome.
//
// zz: C22 q Weighted 1 4 3 0 6 | covers=exact,sampling
// zz: C22 q Weighted 2 6 3 0 14 | covers=exact,sampling
// zz: C22 q Weighted 3 7 3 0 14 | covers=exact,sampling
// zz: C22 q Weighted 4 9 2 0 14 | covers=exact,sampling
// zz: C22 q Weighted 5 40 1 0 14 | covers=sampling
func Weighted(k, n, free, lo, hi int) {
	z.Merging(false)
	p := lo + z.Choose("pattern", hi-lo)
	from := z.Choose("from", len(patterns[p]))
	s := varoptOf(k, sampling.ResizeX8)
	var items []int64
	var w []float64
	z.Coin = z.CoinZero
	z.FloatRand = z.FloatHalf
	for i := 0; i < n; i++ {
		if i == n-free {
			z.Coin = z.CoinFree
			z.FloatRand = z.FloatFree
		}
		items, w = append(items, int64(i)), append(w, weight(p, from+i))
		must(s.Update(int64(i), w[i]), "update")
		plan(s, k, items, w)
	}
}

// Deep: a longer stream with scripted outcomes, from several patterns and their mixtures.
//
// zz: C22 q Deep 1 30 0 14 | covers=sampling
// zz: C22 q Deep 2 60 0 14 | covers=sampling
// zz: C22 q Deep 7 60 0 14 | covers=sampling
// zz: C22 q Deep 17 40 0 14 | covers=sampling
// zz: C22 q Deep 40 90 0 14 | covers=sampling
func Deep(k, n, lo, hi int) {
	z.Merging(false)
	p := lo + z.Choose("pattern", hi-lo)
	p2 := lo + z.Choose("pattern2", hi-lo)
	s := varoptOf(k, sampling.ResizeFactor(z.Choose("rf", 4)))
	if z.Choose("one", 2) == 1 {
		z.Coin = z.CoinOne
	} else {
		z.Coin = z.CoinZero
	}
	z.FloatRand = z.FloatHalf
	var items []int64
	var w []float64
	for i := 0; i < n; i++ {
		q := p
		if i/7%2 == 1 {
			q = p2
		}
		items, w = append(items, int64(i)), append(w, weight(q, i))
		must(s.Update(int64(i), w[i]), "update")
	}
	plan(s, k, items, w)
}

// Expected: after n updates with an arbitrary script of outcomes, the expected weights of all items
// over every outcome of one more update are the weights they had (the weight fed for the new
// one), so that the expected weight of any subset in the sample is its true weight. The subset
// is arbitrary. Weights are whole numbers, so the thresholds of the real random numbers are
// multiples of 1 over the weight of the candidates.
//
// zz: C22 q Expected 1 1 0 6
// zz: C22 q Expected 1 3 0 6
// zz: C22 q Expected 2 2 0 6
// zz: C22 q Expected 2 4 0 6
// zz: C22 q Expected 3 3 0 6
// zz: C22 q Expected 3 5 0 6
// zz: C22 q Expected 4 5 0 6
// zz: C22 t Expected 5 7 0 6
// zz: C22 t Expected 3 8 0 6
func Expected(k, n, lo, hi int) {
	z.Merging(false)
	p := lo + z.Choose("pattern", hi-lo)
	from := z.Choose("from", len(patterns[p]))
	script := z.Choose("script", 3)
	past := func() *varopt {
		s := varoptOf(k, sampling.ResizeX8)
		z.Coin = z.CoinZero
		if script == 1 {
			z.Coin = z.CoinOne
		}
		z.FloatRand = [3]z.FloatMode{z.FloatHalf, z.FloatLow, z.FloatHigh}[script]
		for i := 0; i < n; i++ {
			must(s.Update(int64(i), weight(p, from+i)), "update")
		}
		return s
	}
	before := make([]float64, n+1)
	for q := range past().All() {
		before[q.Item] = q.Weight
	}
	before[n] = weight(p, from+n)
	last := before[n]
	s := past()
	must(s.Update(int64(n), last), "update")
	cand := 0.0
	i := 0
	for q := range s.All() {
		if i >= s.H() {
			cand += q.Weight
		}
		i++
	}
	if s.R() == 0 {
		z.Cover("exact")
		return
	}
	// sums in thousandths
	cells := uint64(cand + 0.5)
	expect := make([]float64, n+1)
	chance := 0.0
	for first, more := true, true; more; first = false {
		s := past()
		if first {
			z.ResetDigits()
		} else if more = z.NextDigits(); !more {
			break
		}
		z.Coin = z.CoinDigits
		z.FloatRand, z.FloatCells = z.FloatDigits, cells
		must(s.Update(int64(n), last), "update")
		c := 1 / float64(z.Outcomes())
		chance += c
		for q := range s.All() {
			expect[q.Item] += c * q.Weight
		}
	}
	z.Assert(near(chance, 1, 1), "the outcomes cover everything")
	diff, scale := uint64(0), uint64(0)
	for i := range expect {
		v := z.Nondet("in", 1)
		a, b := uint64(expect[i]*1e6+0.5), uint64(before[i]*1e6+0.5)
		diff += (a - b) * v
		scale += v
	}
	z.Assert(diff+scale*8 <= scale*16, "the expected weights are the weights fed")
}

// Weights that are no weights are refused and change nothing.
//
// zz: C22 q Refused 2 1
// zz: C22 q Refused 2 4
func Refused(k, n int) {
	z.Merging(false)
	z.Coin, z.FloatRand = z.CoinZero, z.FloatHalf
	s := varoptOf(k, sampling.ResizeX8)
	var items []int64
	var w []float64
	for i := 0; i < n; i++ {
		items, w = append(items, int64(i)), append(w, weight(1, i))
		must(s.Update(int64(i), w[i]), "update")
	}
	x := z.F64("weight")
	z.Assume(!z.And(x > 0, x <= 1.7976931348623157e308))
	z.Assert(s.Update(100, x) != nil, "a weight that is not positive and finite is refused")
	plan(s, k, items, w)
}

func encode(s *varopt) []byte {
	var b bytes.Buffer
	e := sampling.NewVarOptItemsSketchEncoder[int64](&b, serde)
	must(e.Encode(s), "encode")
	z.Assert(b.Len() == s.SerializedSizeBytes(serde), "the serialized size is as announced")
	return b.Bytes()
}

func samples(s *varopt) (items []int64, w []float64) {
	for q := range s.All() {
		items, w = append(items, q.Item), append(w, q.Weight)
	}
	return
}

func sameWeights(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := range a {
		eq = z.And(eq, a[i] == b[i])
	}
	return eq
}

func sameVarOpt(a, b *varopt) {
	z.Assert(a.N() == b.N() && a.K() == b.K() && a.H() == b.H() && a.R() == b.R(), "n, k and the regions are the same")
	x, v := samples(a)
	y, w := samples(b)
	z.Assert(same(x, y), "the samples are the same")
	z.Assert(sameWeights(v, w), "the weights are the same")
}

// Stored: a sketch survives serialization and goes on the same way.
//
// zz: C22 q Stored 1 0 4 | covers=ok
// zz: C22 q Stored 1 3 4 | covers=ok
// zz: C22 q Stored 3 2 13 | covers=ok
// zz: C22 q Stored 3 3 13 | covers=ok
// zz: C22 q Stored 3 4 13 | covers=ok
// zz: C22 q Stored 4 12 13 | covers=ok
// zz: C22 q Stored 40 20 4 | covers=ok
// zz: C22 q Stored 20 45 4 | covers=ok
func Stored(k, n, hi int) {
	z.Merging(false)
	p := z.Choose("pattern", hi)
	z.Coin, z.FloatRand = z.CoinZero, z.FloatHalf
	s := varoptOf(k, sampling.ResizeFactor(z.Choose("rf", 4)))
	shift := int64(0)
	if n < 20 {
		shift = int64(z.U64("item"))
	}
	var items []int64
	var w []float64
	feed := func(s *varopt, i int) { must(s.Update(items[i], w[i]), "update") }
	for i := 0; i < n+10; i++ {
		items, w = append(items, shift+int64(i)), append(w, weight(p, i))
	}
	for i := 0; i < n; i++ {
		feed(s, i)
	}
	r, err := sampling.DecodeVarOptItemsSketch[int64](encode(s), serde)
	must(err, "decode")
	sameVarOpt(s, r)
	for i := n; i < n+10; i++ {
		z.Coin, z.FloatRand = z.CoinZero, z.FloatHalf
		feed(s, i)
		feed(r, i)
		sameVarOpt(s, r)
	}
	plan(r, k, items, w)
	z.Cover("ok")
}

// Subsets: the bounds of a subset sum enclose the estimate and the sum over everything is exact.
//
// zz: C22 q Subsets 3 2 13
// zz: C22 q Subsets 3 3 13
// zz: C22 q Subsets 4 9 13
func Subsets(k, n, hi int) {
	z.Merging(false)
	p := z.Choose("pattern", hi)
	z.Coin, z.FloatRand = z.CoinZero, z.FloatHalf
	s := varoptOf(k, sampling.ResizeX8)
	total := 0.0
	for i := 0; i < n; i++ {
		total += weight(p, i)
		must(s.Update(int64(i), weight(p, i)), "update")
	}
	items, w := samples(s)
	mask := z.Choose("mask", 1<<len(items))
	in := func(x int64) bool {
		for i, y := range items {
			if x == y {
				return mask>>i&1 == 1
			}
		}
		z.Assert(false, "the predicate sees only samples")
		return false
	}
	want := 0.0
	for i := range items {
		if mask>>i&1 == 1 {
			want += w[i]
		}
	}
	sum, err := s.EstimateSubsetSum(in)
	must(err, "subset sum")
	z.Assert(near(sum.Estimate, want, total), "the estimate is the weight of the matching samples")
	z.Assert(near(sum.TotalSketchWeight, total, total), "the total weight is the weight fed")
	z.Assert(sum.LowerBound <= sum.Estimate && sum.Estimate <= sum.UpperBound, "the bounds enclose the estimate")
	z.Assert(sum.LowerBound >= 0 && sum.UpperBound <= total*(1+1e-9), "the bounds are within the stream")
	if n <= k {
		z.Assert(sum.LowerBound == sum.Estimate && sum.UpperBound == sum.Estimate, "exact sums while everything is held")
	}
}

// ---- unions

type vunion = sampling.VarOptItemsUnion[int64]

func varoptUnion(k int) *vunion {
	u, err := sampling.NewVarOptItemsUnion[int64](uint(k))
	must(err, "new union")
	return u
}

// unionPlan asserts that the result of u stands for the items fed and can be used.
func unionPlan(u *vunion, maxK int, items []int64, w []float64) *varopt {
	r, err := u.Result()
	must(err, "result")
	z.Assert(r.N() == int64(len(items)), "n of the union is the sum of the inputs")
	z.Assert(r.NumSamples() <= maxK, "the union holds at most the maximum k samples")
	total := 0.0
	for _, x := range w {
		total += x
	}
	known := map[int64]float64{}
	for i, x := range items {
		known[x] = w[i]
	}
	sum, tau, n := 0.0, -1.0, 0
	seen := map[int64]bool{}
	for q := range r.All() {
		x, ok := known[q.Item]
		z.Assert(ok && !seen[q.Item], "the samples are items of the inputs")
		seen[q.Item] = true
		sum += q.Weight
		if n < r.H() {
			z.Assert(q.Weight == x, "a heavy item keeps its weight")
		} else {
			z.Assert(tau < 0 || q.Weight == tau, "the reservoir items have the same weight")
			tau = q.Weight
			z.Assert(x <= tau*(1+1e-9), "a reservoir item is not heavier than tau")
		}
		n++
	}
	z.Assert(n == r.NumSamples(), "the number of samples agrees with iteration")
	z.Assert(near(sum, total, total), "the weights of the samples sum to the weight fed")
	n = 0
	for q := range r.All() {
		if n < r.H() && tau > 0 {
			z.Assert(q.Weight >= tau*(1-1e-9), "a heavy item is not lighter than tau")
		}
		n++
	}
	for x, y := range known {
		if tau < 0 || y > tau*(1+1e-9) {
			z.Assert(seen[x], "an item heavier than tau is kept")
		}
	}
	if tau > 0 {
		z.Cover("sampling")
	}
	return r
}

func encodeUnion(u *vunion) []byte {
	var b bytes.Buffer
	e := sampling.NewVarOptItemsUnionEncoder[int64](&b, serde)
	must(e.Encode(u), "encode the union")
	return b.Bytes()
}

// script fixes the outcomes of what follows.
func script(i int) {
	z.Coin, z.FloatRand = z.CoinZero, [3]z.FloatMode{z.FloatHalf, z.FloatLow, z.FloatHigh}[i]
	if i == 1 {
		z.Coin = z.CoinOne
	}
}

// Joined: the union of two or three VarOpt sketches, or of a reservoir sketch of kr and nr items
// with them, in any order of two, over several scripts of outcomes and patterns of weights.
//
// zz: C22 q Joined 3 3 2 3 3 0 0 0 0 | covers=ok
// zz: C22 q Joined 4 3 2 3 5 0 0 0 0 | covers=ok,sampling
// zz: C22 q Joined 8 3 2 3 5 0 0 0 0 | covers=ok,sampling
// zz: C22 q Joined 8 2 5 3 7 0 0 0 0 | covers=ok,sampling
// zz: C22 q Joined 5 5 12 3 8 0 0 0 0 | covers=ok,sampling
// zz: C22 q Joined 3 5 12 4 3 4 10 0 0 | covers=ok,sampling
// zz: C22 q Joined 12 4 6 4 6 4 6 0 0 | covers=ok,sampling
// zz: C22 q Joined 10 4 3 4 12 0 0 3 5 | covers=ok,sampling
// zz: C22 q Joined 4 4 3 0 0 0 0 3 2 | covers=ok
// zz: C22 q Joined 4 4 9 0 0 0 0 3 9 | covers=ok,sampling
// zz: C22 q Joined 2 2 5 2 6 0 0 2 4 | covers=ok,sampling
// zz: C22 q Joined 1 1 3 1 2 0 0 0 0 | covers=ok,sampling
// zz: C22 q Joined 1 1 1 3 5 0 0 2 5 | covers=ok,sampling
// zz: C22 q Joined 12 3 10 4 11 0 0 0 0 | covers=ok,sampling
// zz: C22 t Joined 20 7 15 9 30 5 10 4 12
// zz: C22 q Joined 20 7 15 9 30 0 0 0 0 | covers=ok,sampling
func Joined(maxK, k1, n1, k2, n2, k3, n3, kr, nr int) {
	z.Merging(false)
	var items []int64
	var w []float64
	u := varoptUnion(maxK)
	sc := z.Choose("script", 3)
	ins := [][2]int{{k1, n1}, {k2, n2}, {k3, n3}}
	if z.Choose("swap", 2) == 1 {
		ins[0], ins[1] = ins[1], ins[0]
	}
	reservoirAt := z.Choose("reservoirAt", 2) * 3
	for i := 0; i <= 3; i++ {
		script(sc)
		if i == reservoirAt && kr > 0 {
			s := reservoirOf(kr, sampling.ResizeX8)
			for j := 0; j < nr; j++ {
				x := int64(1000 + j)
				items, w = append(items, x), append(w, 1)
				must(s.Update(x), "update")
			}
			must(u.UpdateReservoirItemsSketch(s), "update from a reservoir")
			script(sc)
			unionPlan(u, maxK, items, w)
		}
		if i == 3 || ins[i][0] == 0 {
			continue
		}
		s := varoptOf(ins[i][0], sampling.ResizeX8)
		p := z.Choose("pattern", len(patterns)-1)
		if k3 > 0 || kr > 0 {
			z.Assume(p%3 == 2)
		}
		for j := 0; j < ins[i][1]; j++ {
			x := int64(100*(i+1) + j)
			items, w = append(items, x), append(w, weight(p, j))
			must(s.Update(x, weight(p, j)), "update")
		}
		was, ws := samples(s)
		must(u.Update(s), "update of the union")
		got, ww := samples(s)
		z.Assert(same(was, got) && sameWeights(ws, ww), "an input of a union does not change")
		script(sc)
		unionPlan(u, maxK, items, w)
	}
	script(sc)
	r := unionPlan(u, maxK, items, w)
	// the result can be stored and goes on
	d, err := sampling.DecodeVarOptItemsSketch[int64](encode(r), serde)
	must(err, "decode the result")
	sameVarOpt(r, d)
	// so can the union
	v, err := sampling.DecodeVarOptItemsUnion[int64](encodeUnion(u), serde)
	must(err, "decode the union")
	script(sc)
	sameVarOpt(r, unionPlan(v, maxK, items, w))
	for i := 0; i < 4; i++ {
		must(r.Update(int64(2000+i), 0.5+float64(i)), "update of the result")
		_ = encode(r)
	}
	script(sc)
	unionPlan(u, maxK, items, w)
	u.Reset()
	e, err := u.Result()
	must(err, "result of a reset union")
	z.Assert(e.N() == 0 && e.NumSamples() == 0, "a reset union is empty")
	z.Cover("ok")
}

// Afresh: a sketch or union that was reset behaves as a new one.
//
// zz: C29 q Afresh 3 8 | covers=ok
// zz: C29 q Afresh 20 50 | covers=ok
func Afresh(k, n int) {
	z.Merging(false)
	p := z.Choose("pattern", 4)
	sc := z.Choose("script", 3)
	script(sc)
	a, b := varoptOf(k, sampling.ResizeX2), varoptOf(k, sampling.ResizeX2)
	ra, rb := reservoirOf(k, sampling.ResizeX2), reservoirOf(k, sampling.ResizeX2)
	ua, ub := varoptUnion(k+2), varoptUnion(k+2)
	qa, qb := unionOf(k+2), unionOf(k+2)
	other := varoptOf(k, sampling.ResizeX8)
	rother := reservoirOf(k, sampling.ResizeX8)
	for i := 0; i < n; i++ {
		must(a.Update(int64(100+i), weight(p, i)), "update")
		must(ra.Update(int64(100+i)), "update")
		must(qa.Update(int64(100+i)), "update")
	}
	must(ua.Update(a), "update")
	must(qa.UpdateSketch(ra), "update")
	a.Reset()
	ra.Reset()
	ua.Reset()
	qa.Reset()
	z.Assert(a.IsEmpty() && a.N() == 0 && a.NumSamples() == 0 && a.K() == k, "a sketch that was reset is empty")
	z.Assert(ra.N() == 0 && ra.NumSamples() == 0 && ra.K() == k, "a reservoir that was reset is empty")
	for i := 0; i < n; i++ {
		must(a.Update(int64(i), weight(p+1, i)), "update")
		must(b.Update(int64(i), weight(p+1, i)), "update")
		must(ra.Update(int64(i)), "update")
		must(rb.Update(int64(i)), "update")
		must(other.Update(int64(500+i), weight(p+2, i)), "update")
		must(rother.Update(int64(500+i)), "update")
		sameVarOpt(a, b)
		z.Assert(same(ra.Samples(), rb.Samples()) && ra.N() == rb.N(), "a reservoir that was reset behaves as a new one")
	}
	for _, x := range []*varopt{a, other} {
		must(ua.Update(x), "update of the union")
		must(ub.Update(x), "update of the union")
		script(sc)
		y, err := ua.Result()
		must(err, "result")
		script(sc)
		w, err := ub.Result()
		must(err, "result")
		sameVarOpt(y, w)
	}
	for _, x := range []*reservoir{ra, rother} {
		must(qa.UpdateSketch(x), "update of the union")
		must(qb.UpdateSketch(x), "update of the union")
		y, err := qa.Result()
		must(err, "result")
		w, err := qb.Result()
		must(err, "result")
		z.Assert(same(y.Samples(), w.Samples()) && y.N() == w.N() && y.K() == w.K(), "a union that was reset behaves as a new one")
	}
	z.Cover("ok")
}

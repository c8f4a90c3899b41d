// Package zzsampling: reservoir and VarOpt sampling.
package zzsampling

import (
	"github.com/apache/datasketches-go/common"
	z "github.com/apache/datasketches-go/internal/zzsym"
	"github.com/apache/datasketches-go/sampling"
)

func must(err error, what string) {
	if err != nil {
		z.Assert(false, what+" fails: "+err.Error())
	}
}

var serde = common.ItemSketchLongSerDe{}

type reservoir = sampling.ReservoirItemsSketch[int64]

func reservoirOf(k int, rf sampling.ResizeFactor) *reservoir {
	s, err := sampling.NewReservoirItemsSketch[int64](k, sampling.WithReservoirItemsSketchResizeFactor(rf))
	must(err, "new sketch")
	return s
}

// stream is what was fed: items base..base+n-1.
type stream struct{ base, n int64 }

// within asserts that the items are distinct items of the streams.
func within(items []int64, in ...stream) {
	for i, x := range items {
		ok := false
		for _, s := range in {
			ok = z.Or(ok, z.And(x >= s.base, x < s.base+s.n))
		}
		z.Assert(ok, "every sample was fed")
		for _, y := range items[:i] {
			z.Assert(x != y, "no position of the stream is sampled twice")
		}
	}
}

func same(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := range a {
		eq = z.And(eq, a[i] == b[i])
	}
	return eq
}

func sampleOf(s *reservoir, k int, in ...stream) {
	n := int64(0)
	for _, t := range in {
		n += t.n
	}
	z.Assert(s.N() == n, "n is the number of items fed")
	z.Assert(s.K() == k, "k is kept")
	items := s.Samples()
	z.Assert(len(items) == s.NumSamples(), "the number of samples agrees")
	z.Assert(int64(len(items)) == min(n, int64(k)), "there are min(n, k) samples")
	within(items, in...)
	if n <= int64(k) {
		z.Cover("exact")
	} else {
		z.Cover("sampling")
	}
}

// Updates: any random outcome of n updates, with a reset and a copy in between.
//
// zz: C21 q Updates 2 5 3 | covers=exact,sampling
// zz: C21 q Updates 3 6 3 | covers=exact,sampling
// zz: C21 q Updates 17 20 0 | covers=sampling
// zz: C21 q Updates 40 41 1 | covers=sampling
// zz: C21 t Updates 2 7 2
// zz: C21 t Updates 3 8 3
// zz: C21 t Updates 130 131 1
func Updates(k, n, rf int) {
	z.Merging(false)
	s := reservoirOf(k, sampling.ResizeFactor(rf))
	if z.Choose("reset", 2) == 1 {
		z.Coin = z.CoinZero
		for i := 0; i < k+3; i++ {
			must(s.Update(1000), "update")
		}
		s.Reset()
		z.Coin = z.CoinFree
	}
	copyAt := -1
	if n < 12 {
		copyAt = z.Choose("copyAt", n+1)
	}
	var c *reservoir
	var was []int64
	for i := 0; i < n; i++ {
		if i == copyAt {
			c, was = s.Copy(), s.Samples()
		}
		before := s.Samples()
		must(s.Update(int64(i)), "update")
		if n < 12 || i > n-4 {
			sampleOf(s, k, stream{0, int64(i) + 1})
		}
		after := s.Samples()
		if i < k {
			z.Assert(same(after[:i], before), "no sample is lost while there is room")
			z.Assert(after[i] == int64(i), "every item is kept while there is room")
		}
	}
	if c != nil {
		z.Assert(c.N() == int64(copyAt), "n of a copy")
		z.Assert(same(c.Samples(), was), "a copy does not change")
		z.Coin = z.CoinZero
		must(c.Update(77), "update of the copy")
		items := s.Samples()
		for _, x := range items {
			z.Assert(x != 77, "the original does not change with a copy")
		}
	}
}

// Fair: over all random outcomes every position is sampled equally often: for arbitrary
// weights of the positions the expected weight of the sample is k/n of the total.
//
// zz: C21 q Fair 2 4
// zz: C21 q Fair 3 5
// zz: C21 t Fair 3 6
// zz: C21 t Fair 4 6
func Fair(k, n int) {
	z.Merging(false)
	w := make([]uint64, n)
	total := uint64(0)
	for i := range w {
		w[i] = uint64(z.U8("w"))
		total += w[i]
	}
	z.Coin = z.CoinDigits
	z.ResetDigits()
	hits := make([]uint64, n)
	outcomes := uint64(0)
	for more := true; more; more = z.NextDigits() {
		s := reservoirOf(k, sampling.ResizeX8)
		for i := 0; i < n; i++ {
			must(s.Update(int64(i)), "update")
		}
		if outcomes == 0 {
			outcomes = z.Outcomes()
		}
		z.Assert(z.Outcomes() == outcomes, "the outcomes are equally likely")
		for _, x := range s.Samples() {
			hits[x]++
		}
	}
	sum := uint64(0)
	for i := range w {
		sum += hits[i] * w[i]
	}
	z.Assert(sum*uint64(n) == outcomes*uint64(k)*total, "every position is equally likely")
}

func fed(k, n int, base int64) (*reservoir, stream) {
	s := reservoirOf(k, sampling.ResizeX8)
	for i := int64(0); i < int64(n); i++ {
		must(s.Update(base+i), "update")
	}
	return s, stream{base, int64(n)}
}

func unionOf(maxK int) *sampling.ReservoirItemsUnion[int64] {
	u, err := sampling.NewReservoirItemsUnion[int64](maxK)
	must(err, "new union")
	z.Assert(u.MaxK() == maxK, "maximum k")
	return u
}

func resultOf(u *sampling.ReservoirItemsUnion[int64], in []stream) *reservoir {
	r, err := u.Result()
	must(err, "result")
	n := int64(0)
	for _, s := range in {
		n += s.n
	}
	if r == nil {
		z.Assert(n == 0, "the union has a result")
		return nil
	}
	z.Assert(r.N() == n, "n of the union is the sum of the inputs")
	items := r.Samples()
	z.Assert(r.K() <= u.MaxK(), "k of the union is at most the maximum")
	z.Assert(int64(len(items)) == min(n, int64(r.K())), "the union holds min(n, k) samples")
	within(items, in...)
	return r
}

// Unions: up to three inputs of different k and length into a union of maxK; inputs are
// sketches, raw samples or single items. Input lengths: n1, n2, n3; -1 stands for an item.
//
// zz: C21 q Unions 3 3 2 2 2 0 0
// zz: C21 q Unions 3 2 3 2 3 0 0 | covers=weighted
// zz: C21 q Unions 2 3 4 3 2 0 0
// zz: C21 q Unions 2 3 4 2 3 0 0 | covers=weighted
// zz: C21 q Unions 4 2 1 2 3 0 0
// zz: C21 q Unions 4 2 3 4 3 0 0
// zz: C21 q Unions 4 2 3 4 4 0 0
// zz: C21 q Unions 3 2 4 2 3 0 0 | covers=weighted
// zz: C21 q Unions 2 2 2 2 1 2 -1
// zz: C21 q Unions 3 4 2 3 -1 2 2
// zz: C21 t Unions 3 4 2 3 -1 2 3
// zz: C21 t Unions 3 2 4 3 5 4 2
// zz: C21 t Unions 2 3 5 2 4 2 3 | covers=weighted
func Unions(maxK, k1, n1, k2, n2, k3, n3 int) {
	z.Merging(false)
	u := unionOf(maxK)
	var in []stream
	sampling3 := 0
	for i, c := range [][2]int{{k1, n1}, {k2, n2}, {k3, n3}} {
		k, n, base := c[0], c[1], int64(100*(i+1))
		if n == -1 {
			must(u.Update(base), "update of the union")
			in = append(in, stream{base, 1})
			resultOf(u, in)
			continue
		}
		if k == 0 {
			continue
		}
		z.Coin = z.CoinFork
		if n1 > k1 && n2 > k2 {
			z.Coin = z.CoinZero
		}
		s, st := fed(k, n, base)
		z.Coin = z.CoinFree
		z.FloatRand = z.FloatFree
		was := s.Samples()
		in = append(in, st)
		if n > k {
			sampling3++
		}
		if z.Choose("raw", 2) == 1 {
			must(u.UpdateFromRaw(int64(n), k, s.Samples()), "update from raw samples")
		} else {
			must(u.UpdateSketch(s), "update from a sketch")
		}
		resultOf(u, in)
		z.Assert(s.N() == int64(n), "n of an input does not change")
		z.Assert(same(s.Samples(), was), "the samples of an input do not change")
	}
	if sampling3 > 1 {
		z.Cover("weighted")
	}
	r := resultOf(u, in)
	items := r.Samples()
	// the result is a copy
	z.Coin = z.CoinZero
	must(r.Update(999), "update of the result")
	z.Assert(same(resultOf(u, in).Samples(), items), "the result is independent of the union")
	must(u.Update(998), "update of the union")
	resultOf(u, append(in, stream{998, 1}))
	u.Reset()
	q := resultOf(u, nil)
	z.Assert(q == nil || q.NumSamples() == 0, "a reset union is empty")
	s, st := fed(maxK, maxK, 500)
	must(u.UpdateSketch(s), "update of the reset union")
	e := resultOf(u, []stream{st})
	z.Assert(same(e.Samples(), s.Samples()), "a reset union starts anew")
}

// FairUnion: the weighted merge of two given full samples (k=2, n=n1 and k=2, n=n2) leaves every
// sample with a probability in proportion to the weight it stands for. The thresholds of the
// real random numbers are multiples of 1/cells.
//
// zz: C21 q FairUnion 2 3 4 35
// zz: C21 q FairUnion 2 4 3 77
// zz: C21 q FairUnion 2 3 3 6
// zz: C21 q FairUnion 2 6 4 10
func FairUnion(k, n1, n2, cells int) {
	z.Merging(false)
	w := make([]uint64, 2*k)
	for i := range w {
		w[i] = uint64(z.U8("w"))
	}
	z.Coin = z.CoinZero
	a, _ := fed(k, n1, 0)
	b, _ := fed(k, n2, 100)
	id := map[int64]int{}
	for i, x := range a.Samples() {
		id[x] = i
	}
	for i, x := range b.Samples() {
		id[x] = k + i
	}
	z.Coin = z.CoinDigits
	z.FloatRand, z.FloatCells = z.FloatDigits, uint64(cells)
	z.ResetDigits()
	all := uint64(1)
	for i := 0; i < k; i++ {
		all *= uint64(k * cells)
	}
	hits := make([]uint64, 2*k)
	done := uint64(0)
	for more := true; more; more = z.NextDigits() {
		u := unionOf(k)
		must(u.UpdateSketch(a), "update")
		must(u.UpdateSketch(b), "update")
		r, err := u.Result()
		must(err, "result")
		share := all / z.Outcomes()
		z.Assert(share*z.Outcomes() == all, "shares are whole")
		done += share
		for _, x := range r.Samples() {
			hits[id[x]] += share
		}
	}
	z.Assert(done == all, "the outcomes cover everything")
	got, want := uint64(0), uint64(0)
	for i := range w {
		n := n1
		if i >= k {
			n = n2
		}
		got += hits[i] * w[i]
		want += uint64(n) * w[i]
	}
	z.Assert(got*uint64(n1+n2) == want*all, "every sample is kept in proportion to its weight")
}

// Serial: a sketch and a union survive serialization and go on working.
//
// zz: C21 q Serial 2 0 | covers=ok
// zz: C21 q Serial 2 1 | covers=ok
// zz: C21 q Serial 3 3 | covers=ok
// zz: C21 q Serial 3 4 | covers=ok
// zz: C21 q Serial 5 7 | covers=ok
// zz: C21 q Serial 40 20 | covers=ok
func Serial(k, n int) {
	z.Merging(false)
	rf := sampling.ResizeFactor(z.Choose("rf", 4))
	s := reservoirOf(k, rf)
	for i := 0; i < n; i++ {
		if n < 8 {
			must(s.Update(int64(z.U64("item"))), "update")
		} else {
			must(s.Update(int64(i)), "update")
		}
	}
	b, err := s.ToSlice(serde)
	must(err, "serialize")
	r, err := sampling.NewReservoirItemsSketchFromSlice[int64](b, serde)
	must(err, "deserialize")
	z.Assert(r.K() == k && r.N() == int64(n), "k and n survive")
	z.Assert(same(r.Samples(), s.Samples()), "the samples survive")
	b2, err := r.ToSlice(serde)
	must(err, "serialize again")
	z.Assert(len(b2) == len(b), "the image of a read sketch is as long")
	eq := true
	for i := range b {
		eq = z.And(eq, b[i] == b2[i])
	}
	z.Assert(eq, "the image of a read sketch is the same")
	z.Coin = z.CoinZero
	must(s.Update(5), "update")
	must(r.Update(5), "update after reading")
	z.Assert(same(r.Samples(), s.Samples()), "a read sketch goes on the same way")

	u := unionOf(k + 2*z.Choose("larger", 2) - 1 + int(z.B2U(k == 2)))
	must(u.UpdateSketch(s), "update of the union")
	b, err = u.ToSlice(serde)
	must(err, "serialize the union")
	v, err := sampling.NewReservoirItemsUnionFromSlice[int64](b, serde)
	must(err, "deserialize the union")
	z.Assert(v.MaxK() == u.MaxK(), "the maximum k survives")
	x, err := u.Result()
	must(err, "result")
	y, err := v.Result()
	must(err, "result of the read union")
	if x.N() == 0 {
		z.Assert(y == nil || y.N() == 0, "an empty union stays empty")
	} else {
		z.Assert(y.N() == x.N() && y.K() == x.K(), "n and k of the union survive")
		z.Assert(same(x.Samples(), y.Samples()), "the samples of the union survive")
	}
	z.Cover("ok")
}

// Subset: the bounds of a subset sum enclose the estimate.
//
// zz: C21 q Subset 2 2
// zz: C21 q Subset 4 9
// zz: C21 q Subset 6 100
func Subset(k, n int) {
	z.Merging(false)
	z.Coin = z.CoinZero
	s, _ := fed(k, n, 0)
	num := s.NumSamples()
	mask := z.Choose("mask", 1<<num)
	items := s.Samples()
	sum, err := s.EstimateSubsetSum(func(x int64) bool {
		for i, y := range items {
			if x == y {
				return mask>>i&1 == 1
			}
		}
		return false
	})
	must(err, "subset sum")
	c := 0
	for m := mask; m != 0; m >>= 1 {
		c += m & 1
	}
	z.Assert(sum.TotalSketchWeight == float64(n), "the total weight is n")
	z.Assert(sum.LowerBound <= sum.Estimate && sum.Estimate <= sum.UpperBound, "the bounds enclose the estimate")
	z.Assert(sum.LowerBound >= 0 && sum.UpperBound <= float64(n)*1.0000001, "the bounds are within the stream")
	if n <= k {
		z.Assert(sum.LowerBound == float64(c) && sum.UpperBound == float64(c), "exact counts while everything is held")
	}
	z.Assert(sum.Estimate == float64(n)*(float64(c)/float64(num)), "the estimate scales the sample")
}

// TooSmall: a k for which there is no reservoir is refused at once.
//
// zz: C21 q TooSmall
func TooSmall() {
	k := z.Choose("k", 4) - 1
	_, err := sampling.NewReservoirItemsSketch[int64](k)
	z.Assert((err != nil) == (k < 2), "a sketch of k below 2 is refused")
	u, err := sampling.NewReservoirItemsUnion[int64](k)
	z.Assert((err != nil) == (k < 2), "a union of maximum k below 2 is refused")
	if err == nil {
		must(u.Update(1), "update")
	}
}

// Package zzreq: REQ sketches.
package zzreq

import (
	"math"

	z "github.com/apache/datasketches-go/internal/zzsym"
	"github.com/apache/datasketches-go/req"
)

func must(err error, what string) {
	if err != nil {
		z.Assert(false, what+" fails: "+err.Error())
	}
}

// mix is a fixed scrambler used for concrete items.
func mix(i, salt uint64) uint64 {
	x := (i+1)*0x9E3779B97F4A7C15 + salt*0xD1B54A32D192ED03
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	return x
}

func newSketch(k int, hra bool) *req.Sketch {
	s, err := req.NewSketch(req.WithK(k), req.WithHighRankAccuracyMode(hra))
	must(err, "new")
	return s
}

// items are n items of which sym are arbitrary (not NaN): the last ones (where 0), the first ones
// (1) or spread over the stream (2); the others are fixed, some repeated, negative ones and zero
// among them, in an order given by salt (salt 100: ascending, 101: descending, 102: positive).
func items(n, sym, where int, salt uint64) []float32 {
	r, _ := items2(n, sym, where, salt)
	return r
}

// items2 also returns the fixed items (and those whose place the arbitrary ones take).
func items2(n, sym, where int, salt uint64) (its, fixed []float32) {
	r := make([]float32, n)
	for i := range r {
		switch salt {
		case 100:
			r[i] = float32(i) + 0.5
		case 101:
			r[i] = float32(n-i) + 0.5
		case 102:
			r[i] = float32(mix(uint64(i), salt)%211+4) / 4
		default:
			r[i] = float32(int(mix(uint64(i), salt)%211)-60) / 4
		}
	}
	vals := append([]float32{}, r...)
	for j := 0; j < sym; j++ {
		p := j
		switch where {
		case 0:
			p = n - 1 - j
		case 2:
			p = (2*j + 1) * n / (2 * sym)
		}
		r[p] = z.AmongF32("item", vals)
	}
	return r, vals
}

func feed(s *req.Sketch, its []float32) {
	for _, x := range its {
		must(s.Update(x), "update")
	}
}

func count(its []float32, v float32) (lt, eq uint8) {
	for _, x := range its {
		lt += uint8(z.B2U(x < v))
		eq += uint8(z.B2U(x == v))
	}
	return
}

// check asserts that s is a sketch of its; exact is the number of extreme items that stay
// retained with weight one.
func check(s *req.Sketch, its []float32, exact int, label string) {
	n := len(its)
	z.Assert(s.N() == int64(n), label+": n is the number of items fed")
	z.Assert(s.IsEmpty() == (n == 0), label+": emptiness")
	mn, e1 := s.MinItem()
	mx, e2 := s.MaxItem()
	z.Assert((e1 == nil) == (n > 0) && (e2 == nil) == (n > 0), label+": extremes are defined when not empty")
	all := s.All()
	z.Assert(len(all) == s.NumRetained(), label+": the number retained agrees with iteration")
	if n == 0 {
		return
	}
	isMin, isMax, inMin, inMax := true, true, false, false
	for _, x := range its {
		isMin = z.And(isMin, mn <= x)
		isMax = z.And(isMax, x <= mx)
		inMin = z.Or(inMin, mn == x)
		inMax = z.Or(inMax, mx == x)
	}
	z.Assert(z.And(isMin, inMin), label+": the minimum is that of the items fed")
	z.Assert(z.And(isMax, inMax), label+": the maximum is that of the items fed")
	var sum int64
	vals := make([]float32, len(all))
	pow := true
	var ones []float32
	for i, x := range all {
		sum += x.Weight
		pow = pow && x.Weight > 0 && x.Weight&(x.Weight-1) == 0
		vals[i] = x.Quantile
		if x.Weight == 1 {
			ones = append(ones, x.Quantile)
		}
	}
	z.Assert(pow, label+": weights are powers of two")
	z.Assert(sum == int64(n), label+": the weights sum to n")
	fed := true
	for _, v := range vals {
		_, a := count(its, v)
		_, b := count(vals, v)
		fed = z.And(fed, b <= a)
	}
	z.Assert(fed, label+": every retained item was fed, as often as it is retained")
	if !s.IsEstimationMode() {
		z.Assert(len(all) == n, label+": everything is retained before the first compaction")
	}
	// the extreme items: an item with fewer than exact items beyond it is retained with weight one
	ok := true
	for _, v := range its {
		lt, eq := count(its, v)
		beyond := lt
		if s.IsHighRankAccuracyMode() {
			beyond = uint8(n) - lt - eq
		}
		room := z.Ite(beyond < uint8(exact), uint64(uint8(exact)-beyond), 0)
		room = z.Ite(room < uint64(eq), room, uint64(eq))
		_, have := count(ones, v)
		ok = z.And(ok, uint64(have) >= room)
	}
	z.Assert(ok, label+": the extreme items are retained with weight one")
	z.Observe(uint64(len(all)))
}

// Update: n items, of which sym are arbitrary, every outcome of the coins; checked after every
// item from the one at position from.
//
// zz: C17 t Update 4 1 3 3 0 0 1
// zz: C17 q Update 4 0 2 2 0 0 1
// zz: C17 q Update 4 1 26 1 0 23 1 | covers=estimation
// zz: C17 q Update 4 0 26 1 2 23 1 | covers=estimation
// zz: C17 q Update 4 1 50 1 2 48 2 | covers=estimation
// zz: C17 q Update 4 0 50 1 1 48 100 | covers=estimation
// zz: C17 q Update 4 1 70 0 1 24 101 | covers=estimation
// zz: C17 q Update 4 0 70 0 1 24 3 | covers=estimation
// zz: C17 q Update 6 1 90 0 1 80 3 | covers=estimation
// zz: C17 q Update 6 0 90 0 1 80 3 | covers=estimation
// zz: C17 q Update 4 1 30 2 2 24 4 | covers=estimation
// zz: C17 t Update 4 0 30 2 2 24 4 | covers=estimation
// zz: C17 q Update 4 1 90 1 2 84 4 | covers=estimation
// zz: C17 t Update 6 0 120 1 1 118 3 | covers=estimation
func Update(k, hra, n, sym, where, from, salt int) {
	z.Merging(false)
	z.Coin = z.CoinFork
	s := newSketch(k, hra == 1)
	its := items(n, sym, where, uint64(salt))
	for i, x := range its {
		must(s.Update(x), "update")
		if i%7 == 3 {
			must(s.Update(float32(math.NaN())), "update with NaN")
		}
		if i >= from {
			check(s, its[:i+1], 3*k, "sketch")
		}
	}
	if s.IsEstimationMode() {
		z.Cover("estimation")
	}
}

// Merge: sketches of n1 and n2 items and sizes k1 and k2, sym arbitrary items in each, merged and
// then updated. The operand is left as it was, and a second merge works.
//
// zz: C17 q Merge 4 1 0 4 2 2
// zz: C17 q Merge 4 0 3 4 0 1
// zz: C17 q Merge 4 1 0 4 30 1
// zz: C17 q Merge 4 0 5 4 30 0
// zz: C17 q Merge 4 1 22 4 8 1
// zz: C17 t Merge 4 0 22 4 8 1
// zz: C17 q Merge 4 1 30 6 40 0
// zz: C17 q Merge 6 0 40 4 30 0
// zz: C17 q Merge 4 1 60 4 50 0
// zz: C17 q Merge 4 0 30 4 60 0
// zz: C17 q Merge 4 1 30 4 30 1
// zz: C17 t Merge 8 0 60 6 30 1
func Merge(k1, hra, n1, k2, n2, sym int) {
	z.Merging(false)
	a, b := newSketch(k1, hra == 1), newSketch(k2, hra == 1)
	as := items(n1, min(sym, n1), 2, 1)
	salt := 2
	if n1 == 0 { // an operand of positive items (apart from the arbitrary ones)
		salt = 102
	}
	bs := items(n2, min(sym, n2), 2, uint64(salt))
	z.Coin = z.CoinZero
	feed(a, as)
	z.Coin = z.CoinOne
	feed(b, bs)
	z.Coin = z.CoinFork
	must(a.Merge(b), "merge")
	all := append(append([]float32{}, as...), bs...)
	ex := 3 * min(k1, k2)
	check(a, all, ex, "merged")
	check(b, bs, 3*k2, "the operand")
	for i := 0; i < 3; i++ {
		x := float32(mix(uint64(i), 5)%100) - 50
		must(a.Update(x), "update")
		all = append(all, x)
	}
	check(a, all, ex, "merged and updated")
	check(b, bs, 3*k2, "the operand")
	z.Coin = z.CoinOne
	c := newSketch(k2, hra == 1)
	must(c.Merge(a), "merge")
	check(c, all, ex, "merged twice")
	check(a, all, ex, "the second operand")
	o := newSketch(k1, hra != 1)
	must(o.Update(1), "update")
	z.Assert(c.Merge(o) != nil, "sketches of different accuracy modes do not merge")
	check(c, all, ex, "after a refused merge")
}

// Unbiased: over the equally likely outcomes of the coins, the expected rank of any item is its
// rank in the stream; n items, of which n1 come in through a merged sketch (which: into it).
//
// zz: C17 q Unbiased 4 1 30 0 0
// zz: C17 q Unbiased 4 0 60 0 0
// zz: C17 q Unbiased 4 1 60 30 0
// zz: C17 q Unbiased 4 0 56 30 1
// zz: C17 q Unbiased 4 1 33 33 1
// zz: C17 q Unbiased 4 1 33 33 0
// zz: C17 q Unbiased 4 0 40 30 0
// zz: C17 q Unbiased 6 1 110 0 0
func Unbiased(k, hra, n, n1, which int) {
	z.Merging(false)
	z.Coin = z.CoinScript
	its := items(n, 0, 2, 3)
	q := z.AmongF32("query", append(its, 1000))
	var total uint16
	flips := 1
	for sc := 0; sc < 1<<uint(flips); sc++ {
		z.Script, z.Flips = uint64(sc), 0
		s := newSketch(k, hra == 1)
		feed(s, its[n1:])
		if n1 > 0 {
			t := newSketch(k, hra == 1)
			feed(t, its[:n1])
			if which == 1 {
				s, t = t, s
			}
			must(s.Merge(t), "merge")
			feed(s, []float32{1000})
			feed(s, items(16, 0, 0, 102))
		}
		if sc == 0 {
			flips = z.Flips
			z.Assume(flips <= 6)
		}
		z.Assert(z.Flips == flips, "the number of coins does not depend on their outcomes")
		for _, x := range s.All() {
			total += uint16(z.Ite(x.Quantile <= q, uint64(x.Weight), 0))
		}
	}
	if n1 > 0 {
		its = append(append(append([]float32{}, its...), 1000), items(16, 0, 0, 102)...)
	}
	var want uint16
	for _, x := range its {
		want += uint16(z.B2U(x <= q))
	}
	z.Assert(total == want<<uint(flips), "the expected rank of an item is its rank")
	z.Observe(uint64(flips))
}

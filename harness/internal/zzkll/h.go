// Package zzkll: KLL sketches.
package zzkll

import (
	z "github.com/apache/datasketches-go/internal/zzsym"
	"github.com/apache/datasketches-go/kll"
)

func must(err error, what string) {
	if err != nil {
		z.Assert(false, what+" fails: "+err.Error())
	}
}

// mix is a fixed scrambler used for concrete items.
func mix(i, salt uint64) uint64 {
	x := (i+1)*0x9E3779B97F4A7C15 + salt*0xD1B54A32D192ED03
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	return x
}

// it is an item: ordered by its key, with an identity of its own.
type it struct{ key, id uint64 }

func less(a, b it) bool { return a.key < b.key }

type sketch = *kll.ItemsSketch[it]

func newSketch(k, m int) sketch {
	s, err := kll.NewKllItemsSketch[it](uint16(k), uint8(m), less, nil)
	must(err, "new")
	return s
}

// keys are n keys of which sym are arbitrary: the last ones (where 0), the first ones (1) or
// spread over the stream (2); the others are fixed, with repetitions.
func keys(n, sym, where int, salt uint64) []uint64 {
	r := make([]uint64, n)
	for i := range r {
		r[i] = mix(uint64(i), salt) % 97 * 600
	}
	for j := 0; j < sym; j++ {
		p := j
		switch where {
		case 0:
			p = n - 1 - j
		case 2:
			p = (2*j + 1) * n / (2 * sym)
		}
		r[p] = z.Nondet("key", 16)
	}
	return r
}

func items(ks []uint64, base uint64) []it {
	r := make([]it, len(ks))
	for i, k := range ks {
		r[i] = it{k, base + uint64(i)}
	}
	return r
}

func feed(s sketch, its []it) {
	for _, x := range its {
		s.Update(x)
	}
}

// check asserts that s is a sketch of its.
func check(s sketch, its []it, label string) {
	n := uint64(len(its))
	z.Assert(s.GetN() == n, label+": n is the number of items fed")
	z.Assert(s.IsEmpty() == (n == 0), label+": emptiness")
	mn, e1 := s.GetMinItem()
	mx, e2 := s.GetMaxItem()
	z.Assert((e1 == nil) == (n > 0) && (e2 == nil) == (n > 0), label+": extremes are defined when not empty")
	if n > 0 {
		lo, hi := its[0].key, its[0].key
		for _, x := range its {
			lo = z.Ite(x.key < lo, x.key, lo)
			hi = z.Ite(hi < x.key, x.key, hi)
		}
		z.Assert(mn.key == lo, label+": the minimum is that of the items fed")
		z.Assert(mx.key == hi, label+": the maximum is that of the items fed")
	}
	// coin outcomes may have left the identities symbolic: count per identity
	sum, cnt := uint64(0), 0
	sorted, fed, dup, pow := true, true, false, true
	var prev it
	prevW := int64(0)
	seen := make([]bool, len(its))
	if n > 0 {
		i := s.GetIterator()
		for i.Next() {
			x, w := i.GetQuantile(), i.GetWeight()
			sum += uint64(w)
			cnt++
			pow = pow && w > 0 && w&(w-1) == 0
			if w > 1 && w == prevW {
				sorted = z.And(sorted, prev.key <= x.key)
			}
			prev, prevW = x, w
			in := false
			for j := range its {
				eq := its[j].id == x.id
				dup = z.Or(dup, z.And(eq, seen[j]))
				seen[j] = z.Or(seen[j], eq)
				in = z.Or(in, z.And(eq, its[j].key == x.key))
			}
			fed = z.And(fed, in)
			if n <= uint64(s.GetK()) {
				z.Assert(w == 1, label+": weights are one before the first compaction")
			}
		}
	}
	z.Assert(pow, label+": weights are powers of two")
	z.Assert(sum == n, label+": the weights sum to n")
	z.Assert(fed, label+": every retained item was fed")
	z.Assert(!dup, label+": no item is retained twice")
	z.Assert(sorted, label+": items above the lowest level are sorted")
	z.Assert(cnt == int(s.GetNumRetained()), label+": the number retained agrees with iteration")
	if n <= uint64(s.GetK()) {
		z.Assert(cnt == int(n), label+": everything is retained before the first compaction")
	}
	z.Observe(uint64(cnt))
}

// Update: n items, of which sym are arbitrary, every outcome of the coins; checked after every
// item from the one at position from.
//
// zz: C14 q Update 8 8 9 3 0 0
// zz: C14 q Update 8 8 9 3 1 8
// zz: C14 q Update 8 8 17 2 2 9
// zz: C14 q Update 8 8 38 1 1 16 | covers=levels3
// zz: C14 q Update 8 2 70 0 1 40 | covers=levels3
// zz: C14 q Update 12 4 70 1 2 62 | covers=levels3
// zz: C14 q Update 8 2 13 2 2 9
// zz: C14 q Update 8 2 30 1 1 20 | covers=levels3
// zz: C14 q Update 9 4 22 1 0 10
// zz: C14 q Update 11 8 34 1 0 33
// zz: C14 t Update 8 8 9 4 2 8
// zz: C14 t Update 8 8 26 2 2 20
// zz: C14 t Update 8 2 40 1 2 30
// zz: C14 t Update 16 8 60 1 2 50
func Update(k, m, n, sym, where, from int) {
	z.Merging(false)
	z.Coin = z.CoinFork
	s := newSketch(k, m)
	its := items(keys(n, sym, where, 1), 0)
	for i, x := range its {
		s.Update(x)
		if i >= from {
			check(s, its[:i+1], "sketch")
		}
	}
	if s.GetNumRetained() > 0 {
		i, w := s.GetIterator(), int64(0)
		for i.Next() {
			w = i.GetWeight()
		}
		if w >= 4 {
			z.Cover("levels3")
		}
	}
}

// Merge: sketches of n1 and n2 items and sizes k1 and k2, sym arbitrary items in each, merged and
// then updated. The operand is left as it was, and a second merge works.
//
// zz: C14 q Merge 8 8 0 8 9 2 0
// zz: C14 q Merge 8 8 3 8 0 1 0
// zz: C14 q Merge 8 8 5 8 5 1 0
// zz: C14 q Merge 8 8 8 8 9 1 0
// zz: C14 q Merge 8 8 9 8 12 1 0
// zz: C14 q Merge 8 8 17 8 3 1 0
// zz: C14 q Merge 8 8 3 8 20 1 0
// zz: C14 q Merge 10 8 12 8 12 1 0
// zz: C14 q Merge 8 2 12 10 14 1 0
// zz: C14 q Merge 8 8 11 8 25 0 0
// zz: C14 q Merge 8 2 20 8 25 0 0
// zz: C14 t Merge 8 8 17 8 17 1 0
// zz: C14 t Merge 16 8 30 8 30 1 0
// zz: C14 t Merge 8 8 9 8 9 2 0
func Merge(k1, m, n1, k2, n2, sym, extra int) {
	z.Merging(false)
	z.Coin = z.CoinFork
	a, b := newSketch(k1, m), newSketch(k2, m)
	as := items(keys(n1, min(sym, n1), 2, 1), 0)
	bs := items(keys(n2, min(sym, n2), 2, 2), 1000)
	z.Coin = z.CoinZero
	feed(a, as)
	z.Coin = z.CoinOne
	feed(b, bs)
	z.Coin = z.CoinFork
	a.Merge(b)
	all := append(append([]it{}, as...), bs...)
	check(a, all, "merged")
	check(b, bs, "the operand")
	for i := 0; i < 2+extra; i++ {
		x := it{mix(uint64(i), 5) % 60000, 2000 + uint64(i)}
		a.Update(x)
		all = append(all, x)
	}
	check(a, all, "merged and updated")
	check(b, bs, "the operand")
	z.Coin = z.CoinOne
	c := newSketch(k2, m)
	c.Merge(a)
	check(c, all, "merged twice")
	check(a, all, "the second operand")
}

// Unbiased: over the equally likely outcomes of the coins, the expected weight of every item fed
// is one; n items into a sketch, or n1 of them through a merged one.
//
// zz: C14 q Unbiased 8 8 12 2 0
// zz: C14 q Unbiased 8 8 26 1 0
// zz: C14 q Unbiased 8 2 26 1 0
// zz: C14 q Unbiased 8 8 24 1 12
// zz: C14 q Unbiased 8 2 20 1 12
// zz: C14 t Unbiased 8 8 26 2 0
// zz: C14 t Unbiased 8 2 32 1 16
func Unbiased(k, m, n, sym, n1 int) {
	z.Merging(false)
	z.Coin = z.CoinScript
	its := items(keys(n, sym, 2, 3), 0)
	total := make([]uint64, n)
	flips := 1
	for sc := 0; sc < 1<<uint(flips); sc++ {
		z.Script, z.Flips = uint64(sc), 0
		s := newSketch(k, m)
		feed(s, its[n1:])
		if n1 > 0 {
			t := newSketch(k, m)
			feed(t, its[:n1])
			s.Merge(t)
		}
		if sc == 0 {
			flips = z.Flips
		}
		z.Assert(z.Flips == flips, "the number of coins does not depend on their outcomes")
		i := s.GetIterator()
		for i.Next() {
			total[i.GetQuantile().id] += uint64(i.GetWeight())
		}
	}
	ok := true
	for _, t := range total {
		ok = ok && t == 1<<uint(flips)
	}
	z.Assert(ok, "the expected weight of every item is one")
	z.Observe(uint64(flips))
}

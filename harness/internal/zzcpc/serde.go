package zzcpc

import (
	"math"

	"github.com/apache/datasketches-go/cpc"
	z "github.com/apache/datasketches-go/internal/zzsym"
)

func eqf(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

// alike: two sketches answer alike.
func alike(a, b *cpc.CpcSketch, what string) {
	z.Assert(a.GetLgK() == b.GetLgK(), what+" the size is the same")
	ok := eqf(a.GetEstimate(), b.GetEstimate())
	for kappa := 1; kappa <= 3; kappa++ {
		ok = z.And(ok, eqf(a.GetLowerBound(kappa), b.GetLowerBound(kappa)))
		ok = z.And(ok, eqf(a.GetUpperBound(kappa), b.GetUpperBound(kappa)))
	}
	z.Assert(ok, what+" estimate and bounds are the same")
	x, y := matrix(a), matrix(b)
	ok = true
	for i := range x {
		ok = z.And(ok, x[i] == y[i])
	}
	z.Assert(ok, what+" the coupons are the same")
}

// trip: an image read back gives the same sketch, which goes on alike.
func trip(f *feeder, s *cpc.CpcSketch, m *model) {
	b := image(s)
	z.Assert(coupons(b) == m.count(), "the image counts the coupons")
	t := parse(append(append([]byte{}, b...), 0xff, 0xff))
	m.check(t, "read back,")
	alike(s, t, "read back,")
	z.Assert(same(image(t), b), "the image of the sketch read back is the same")
	w, err := cpc.NewCpcWrapperFromBytes(b)
	must(err, "wrapper")
	ok := z.And(w.GetLgK() == s.GetLgK(), eqf(w.GetEstimate(), s.GetEstimate()))
	for kappa := 1; kappa <= 3; kappa++ {
		ok = z.And(ok, eqf(w.GetLowerBound(kappa), s.GetLowerBound(kappa)))
		ok = z.And(ok, eqf(w.GetUpperBound(kappa), s.GetUpperBound(kappa)))
	}
	z.Assert(ok, "the wrapper answers alike")
	// both go on, past the next change of flavor
	k := 1 << m.lgK
	for i := 0; i < k/8+3; i++ {
		row, col := at(5, i+9, k)
		f.add(s, m, row, col)
		f.add(t, m, row, col)
		row, col = i*7&(k-1), i/4
		f.add(s, m, row, col)
		f.add(t, m, row, col)
	}
	m.check(t, "later,")
	alike(s, t, "later,")
	z.Assert(same(image(s), image(t)), "later, the images are the same")
}

// Trip: a sketch of n coupons of a shape and an arbitrary one, or the result of merging it, is
// read back.
//
// zz: C12 q Trip 4 0 0 68 2 2 | budget=60 covers=merged,fresh
// zz: C12 q Trip 4 1 0 400 19 1 | budget=60 covers=merged,fresh
// zz: C12 q Trip 4 2 0 300 19 1 | budget=60 covers=merged,fresh
// zz: C12 q Trip 4 3 0 300 19 1 | budget=60 covers=merged,fresh
// zz: C12 q Trip 4 4 0 400 19 1 | budget=60 covers=merged,fresh
// zz: C12 q Trip 4 5 0 400 19 1 | budget=60 covers=merged,fresh
// zz: C12 q Trip 4 6 0 400 19 1 | budget=60 covers=merged,fresh
// zz: C12 q Trip 4 0 0 6 6 16 | budget=60 covers=merged,fresh
// zz: C12 q Trip 6 2 4 104 10 1 | budget=60 covers=merged,fresh
// zz: C12 t Trip 4 0 0 90 1 16 | budget=300 covers=merged,fresh
// zz: C12 t Trip 4 1 0 400 1 4 | budget=300 covers=merged,fresh
// zz: C12 t Trip 4 3 0 400 1 4 | budget=300 covers=merged,fresh
// zz: C12 t Trip 4 5 0 400 1 4 | budget=300 covers=merged,fresh
// zz: C12 t Trip 5 6 0 900 9 2 | budget=300 covers=merged,fresh
// zz: C12 t Trip 6 4 0 1500 30 2 | budget=300 covers=merged,fresh
// zz: C12 t Trip 8 0 0 1000 50 2 | budget=300 covers=merged,fresh
func Trip(lgK, shape, lo, hi, step, rows int) {
	z.Merging(false)
	f := &feeder{}
	n := lo + z.Choose("n", (hi-lo)/step+1)*step
	s, m := filled(f, lgK, shape, n)
	f.add(s, m, z.Choose("row", rows)*5+3, z.Choose("col", 64))
	if z.Choose("merged", 2) == 1 {
		z.Cover("merged")
		u, err := cpc.NewCpcUnionSketch(lgK, seed)
		must(err, "new union")
		must(u.Update(s), "union")
		s, err = u.GetResult()
		must(err, "result")
	} else {
		z.Cover("fresh")
	}
	trip(f, s, m)
}

// Empty: an empty sketch, fresh or merged.
//
// zz: C12 q Empty | budget=20
func Empty() {
	z.Merging(false)
	f := &feeder{}
	lgK := 4 + z.Choose("lgK", 4)
	s, m := filled(f, lgK, 0, 0)
	if z.Choose("merged", 2) == 1 {
		u, err := cpc.NewCpcUnionSketch(lgK, seed)
		must(err, "new union")
		s, err = u.GetResult()
		must(err, "result")
	}
	trip(f, s, m)
}

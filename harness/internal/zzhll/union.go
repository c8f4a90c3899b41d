package zzhll

import (
	"math"

	"github.com/apache/datasketches-go/hll"
	z "github.com/apache/datasketches-go/internal/zzsym"
)

func newUnion(lgMax int) hll.Union {
	u, err := hll.NewUnion(lgMax)
	must(err, "new union")
	return u
}

// input is the sketch described by code: 100*lgK + 10*type + kind, with the items it was fed.
// One item of every non-empty kind is arbitrary: any value, in one of the buckets of slots.
func input(code int, salt uint64, slots []uint64, est bool) (hll.HllSketch, []coup) {
	s := newSketch(code/100, code/10%10)
	f := &feeder{id: salt << 32}
	kind := code % 10
	switch kind {
	case 0:
		return s, nil
	case 1: // a short list
		f.add(s, 3+salt, 2)
		f.add(s, 1<<20|5, 20)
	case 2: // a list about to be full
		for i := uint64(0); i < 6; i++ {
			f.add(s, mix(i, salt)&(1<<26-1), 1+int(mix(i, 9)%5))
		}
	case 3: // enough for HLL mode with lgK < 8, or a hash set
		for i := uint64(0); i < 9; i++ {
			f.add(s, mix(i, salt+20)&(1<<26-1), 1+int(mix(i, 9)%5))
		}
	case 4: // HLL mode with large values, far from the minimum
		for i := uint64(0); i < 9; i++ {
			f.add(s, i*7+salt, 15+int(i*3))
		}
	case 5: // HLL mode, lgK = 4, no empty register
		for i := uint64(0); i < 16; i++ {
			v := 2 + int(i+salt)%3
			if i%5 == 4 {
				v = 17 + int(i)
			}
			f.add(s, i*5&15|i<<9, v)
		}
	case 6: // HLL mode with lgK = 8
		for i := uint64(0); i < 25; i++ {
			f.add(s, mix(i, salt+40)&(1<<26-1), 1+int(mix(i, 11)%20))
		}
	}
	slot := slots[z.Choose("slot", len(slots))]
	if est {
		vals := [...]int{1, 15, 32, 62}
		f.add(s, slot, vals[z.Choose("val", len(vals))])
	} else {
		f.symv(s, slot)
	}
	return s, f.all
}

func image(s interface{ ToUpdatableSlice() ([]byte, error) }) []byte {
	b, err := s.ToUpdatableSlice()
	must(err, "serialize")
	return b
}

func same(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = z.And(ok, a[i] == b[i])
	}
	return ok
}

// merge runs a union over the inputs; it returns nil when an input was refused.
func merge(u hll.Union, lgMax int, codes []int, est bool) (all []coup, lgK int) {
	lgK = lgMax
	slots := []uint64{3, 1<<21 | 8<<4 | 10}
	for i, c := range codes {
		if c == 0 {
			continue
		}
		s, fed := input(c, uint64(i), slots, est)
		before := image(s)
		ub := image(u)
		isHll := int(s.GetCurMode()) == 2
		err := u.UpdateSketch(s)
		z.Assert(same(before, image(s)), "the input is not modified")
		if err != nil {
			// the library does not implement folding a larger sketch in HLL mode
			z.Cover("refused")
			z.Assert(isHll && s.GetLgConfigK() > u.GetLgConfigK(), "an update is refused only for a sketch in HLL mode larger than the union: "+err.Error())
			z.Assert(same(ub, image(u)), "a refused update leaves the union as it was")
			continue
		}
		all = append(all, fed...)
		if isHll && s.GetLgConfigK() < lgK {
			lgK = s.GetLgConfigK()
			z.Cover("folded")
		}
	}
	return all, lgK
}

// Union: the union of up to three sketches (0: none) of the given description.
//
// zz: C09 q Union 4 401 413 425
// zz: C09 q Union 4 423 404 0
// zz: C09 q Union 4 405 414 0
// zz: C09 q Union 4 415 405 421
// zz: C09 q Union 4 402 412 400
// zz: C09 q Union 5 524 414 0 | covers=folded
// zz: C09 q Union 5 404 523 0 | covers=folded,refused
// zz: C09 q Union 5 501 404 513 | covers=folded,refused
// zz: C09 q Union 5 512 512 405 | covers=folded
// zz: C09 q Union 8 803 1011 412 | budget=60
// zz: C09 q Union 8 804 404 0 | covers=folded
// zz: C09 q Union 9 803 903 0
// zz: C09 q Union 8 923 812 0
// zz: C09 q Union 8 1024 804 0
// zz: C09 q Union 8 904 0 0
// zz: C09 t Union 8 826 816 0
// zz: C09 t Union 8 806 823 804
// zz: C09 t Union 4 405 415 425
// zz: C09 t Union 5 505 415 0 | covers=folded
// zz: C09 t Union 8 822 812 803
func Union(lgMax, c1, c2, c3 int) {
	z.HashFree = true
	z.Merging(false)
	u := newUnion(lgMax)
	all, lgK := merge(u, lgMax, []int{c1, c2, c3}, false)
	z.Assert(u.GetLgConfigK() == lgK, "the union has the size of the smallest sketch in HLL mode, or its own")
	for t := 0; t < 3; t++ {
		r, err := u.GetResult(hll.TgtHllType(t))
		must(err, "result")
		z.Assert(int(r.GetTgtHllType()) == t, "the result has the type asked for")
		checkResult(r, all, lgK, "the result")
	}
	z.Assert(u.IsEmpty() == (len(all) == 0), "empty exactly when every input was empty")
	z.Assert(same(image(u), image(mustResult(u))), "the union's own image is that of its result")
}

func mustResult(u hll.Union) hll.HllSketch {
	r, err := u.GetResult(hll.TgtHllTypeHll8)
	must(err, "result")
	return r
}

func checkResult(s hll.HllSketch, all []coup, lgK int, label string) {
	z.Assert(s.IsEmpty() == (len(all) == 0), label+": empty exactly when nothing was fed")
	z.Assert(s.GetLgConfigK() == lgK, label+": size")
	var want []uint64
	if int(s.GetCurMode()) == 2 {
		want = model(all, lgK)
		// the sums of inverse powers the estimators use
		b := image(s)
		checkSums(b, want, label)
	}
	checkImages(s, all, want, label)
}

// checkSums: the sum over the registers of 2^-value, kept in two parts, is right. Where a register is
// arbitrary the comparison is left to Estimates.
func checkSums(b []byte, regs []uint64, label string) {
	s0, s1 := 0.0, 0.0
	for _, r := range regs {
		if !z.IsConcrete(r) {
			return
		}
		if r < 32 {
			s0 += 1 / float64(uint64(1)<<r)
		} else {
			s1 += 1 / float64(uint64(1)<<r)
		}
	}
	got := math.Float64frombits(u64(b, 16)) + math.Float64frombits(u64(b, 24))
	z.Assert(math.Abs(got-(s0+s1)) <= 1e-9*(s0+s1), label+": the sum of inverse powers is right")
}

// Estimates: the union's own answers are those of its result, the sums behind the estimates
// are exact and the bounds bracket the estimate.
//
// zz: C09 q Estimates 4 403 415 0
// zz: C09 q Estimates 4 415 405 0
// zz: C09 q Estimates 5 524 404 0
// zz: C09 q Estimates 5 512 405 421
// zz: C09 q Estimates 8 803 812 0
// zz: C09 t Estimates 8 806 826 404
func Estimates(lgMax, c1, c2, c3 int) {
	z.HashFree = true
	z.Merging(false)
	u := newUnion(lgMax)
	all, lgK := merge(u, lgMax, []int{c1, c2, c3}, true)
	r := mustResult(u)
	checkResult(r, all, lgK, "the result")
	// again, and with the accessors in another order, after one more item
	for i := 0; i < 2; i++ {
		e1, err := u.GetEstimate()
		must(err, "estimate")
		e2, err := mustResult(u).GetEstimate()
		must(err, "estimate")
		z.Assert(e1 == e2, "the union's estimate is that of its result")
		c1, err := u.GetCompositeEstimate()
		must(err, "composite estimate")
		c2, err := mustResult(u).GetCompositeEstimate()
		must(err, "composite estimate")
		z.Assert(c1 == c2, "the union's composite estimate is that of its result")
		for sd := 1; sd <= 3; sd++ {
			l, err := u.GetLowerBound(sd)
			must(err, "bound")
			h, err := u.GetUpperBound(sd)
			must(err, "bound")
			z.Assert(l <= e1 && e1 <= h, "the bounds bracket the estimate")
			l2, err := r.GetLowerBound(sd)
			must(err, "bound")
			z.Assert(i > 0 || l == l2, "the union's bounds are those of its result")
		}
		f := &feeder{id: 99}
		f.add(u, 1<<22|7, 40)
		all = append(all, f.all...)
	}
	checkResult(mustResult(u), all, lgK, "the result after another item")
}

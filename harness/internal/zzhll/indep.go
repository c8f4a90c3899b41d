package zzhll

import (
	"github.com/apache/datasketches-go/hll"
	z "github.com/apache/datasketches-go/internal/zzsym"
)

// Independent: copies, results and images do not change when their source is updated, nor the
// source when they are; a reset sketch is a new one.
//
// zz: C29 q Independent 402
// zz: C29 q Independent 412
// zz: C29 q Independent 404
// zz: C29 q Independent 414
// zz: C29 q Independent 425
// zz: C29 q Independent 803
func Independent(code int) {
	z.HashFree = true
	z.Merging(false)
	slots := []uint64{3, 10}
	s, all := input(code, 1, slots, false)
	lgK := s.GetLgConfigK()
	u := newUnion(lgK)
	must(u.UpdateSketch(s), "update")
	var held []hll.HllSketch
	c, err := s.Copy()
	must(err, "copy")
	held = append(held, c)
	for t := hll.TgtHllTypeHll4; t <= hll.TgtHllTypeHll8; t++ {
		c, err := s.CopyAs(t)
		must(err, "copy")
		r, err := u.GetResult(t)
		must(err, "result")
		held = append(held, c, r)
	}
	b1 := image(s)
	b2, err := s.ToCompactSlice()
	must(err, "serialize")
	im1, im2 := append([]byte{}, b1...), append([]byte{}, b2...)
	more := func(v updater, salt uint64) []coup {
		f := &feeder{id: salt << 32}
		slot := slots[z.Choose("slot", 2)]
		f.add(v, 0, 16)
		f.symv(v, slot)
		f.add(v, 7, 50)
		return append(append([]coup{}, all...), f.all...)
	}
	// the source and the union go on
	all1 := more(s, 50)
	for _, h := range held {
		checkSame(h, all, "a copy or result, after its source was updated")
	}
	z.Assert(same(im1, b1) && same(im2, b2), "images do not change when the sketch does")
	checkSame(mustResult(u), all, "a union, after its input was updated")
	all2 := more(u, 51)
	for _, h := range held {
		checkSame(h, all, "a copy or result, after the union was updated")
	}
	// the copies go on
	for i, h := range held {
		f := &feeder{id: 60 + uint64(i)<<32}
		f.add(h, 1, 61)
	}
	checkSame(s, all1, "the source, after its copies were updated")
	checkSame(mustResult(u), all2, "the union, after its results were updated")
	// reset
	typ := s.GetTgtHllType()
	must(s.Reset(), "reset")
	must(u.Reset(), "reset")
	n := newSketch(lgK, int(typ))
	alike(s, n, true, "a reset sketch")
	z.Assert(same(image(s), image(n)), "a reset sketch has the image of a new one")
	z.Assert(u.IsEmpty() && u.GetLgConfigK() == lgK && u.GetCurMode() == n.GetCurMode(), "a reset union is a new one")
	f, g := &feeder{id: 90 << 32}, &feeder{id: 90 << 32}
	for i := uint64(0); i < 9; i++ {
		f.add(s, i*3, 2+int(i)*2)
		g.add(n, i*3, 2+int(i)*2)
	}
	alike(s, n, true, "a reset sketch, updated")
	z.Assert(same(image(s), image(n)), "a reset sketch behaves like a new one")
}

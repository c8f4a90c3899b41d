package zztuple

import (
	z "github.com/apache/datasketches-go/internal/zzsym"
	"github.com/apache/datasketches-go/tuple"
)

type frozen struct {
	s     tuple.Sketch[*seqSum]
	m     []kv
	theta uint64
	empty bool
}

func freeze(s tuple.Sketch[*seqSum]) frozen {
	f := frozen{s: s, theta: s.Theta64(), empty: s.IsEmpty()}
	for h, e := range s.All() {
		f.m = append(f.m, kv{h, e.v})
	}
	return f
}

func (f frozen) check(what string) {
	z.Assert(f.s.Theta64() == f.theta && f.s.IsEmpty() == f.empty && int(f.s.NumRetained()) == len(f.m), what+": theta, emptiness and count")
	i := 0
	for h, e := range f.s.All() {
		z.Assert(i < len(f.m), what+": the number of entries")
		z.Assert(z.And(h == f.m[i].h, e.v == f.m[i].v), what+": keys and summaries")
		i++
	}
}

// Apart: compact forms and results of set operations keep their keys and summaries when the
// sources or the operation go on, and the sources theirs.
//
// zz: C29 q Apart 2
// zz: C29 q Apart 20
// zz: C29 q Apart 61
func Apart(pre int) {
	presetSeed()
	z.Merging(false)
	mk := func(lo, n int) *tuple.UpdateSketch[*seqSum, uint8] {
		s := newSketch(5, 0)
		for i := lo; i < lo+n; i++ {
			feed(s, mix(uint64(i), 1)>>1, z.U8("x"))
		}
		return s
	}
	a, b := mk(0, pre), mk(pre/2, pre)
	fa, fb := freeze(a), freeze(b)
	var t *tuple.CompactSketch[*seqSum]
	var err error
	again := func() {}
	ordered := z.Choose("ordered", 2) == 1
	switch z.Choose("how", 5) {
	case 0:
		t, err = a.Compact(ordered)
	case 1:
		t, err = a.Filter(func(*seqSum) bool { return true })
	case 2:
		u, e := tuple.NewUnion[*seqSum](catPolicy{}, tuple.WithUnionLgK(5))
		must(e, "new")
		must(u.Update(a), "union")
		again = func() { must(u.Update(b), "union") }
		if z.Choose("both", 2) == 1 {
			again()
		}
		t, err = u.Result(ordered)
	case 3:
		u := tuple.NewIntersection[*seqSum](catPolicy{})
		must(u.Update(a), "intersection")
		again = func() { must(u.Update(b), "intersection") }
		if z.Choose("both", 2) == 1 {
			again()
		}
		t, err = u.Result(ordered)
	case 4:
		if z.Choose("compact", 2) == 0 {
			t, err = tuple.ANotB[*seqSum](a, b, seed, ordered)
		} else {
			ca, e := a.Compact(true)
			must(e, "compact")
			cb, e := b.Compact(true)
			must(e, "compact")
			t, err = tuple.ANotB[*seqSum](ca, cb, seed, ordered)
			defer freeze(ca).check("a compact operand")
		}
	}
	must(err, "result")
	ft := freeze(t)
	fa.check("the first source")
	fb.check("the second source")
	again()
	fa.check("the first source, the operation going on")
	ft.check("the result, the operation going on")
	// the result as an operand
	u, err := tuple.NewUnion[*seqSum](catPolicy{}, tuple.WithUnionLgK(5))
	must(err, "new")
	must(u.Update(t), "union")
	must(u.Update(b), "union")
	fb.check("the second source")
	ft.check("the result used as an operand")
	for i := 0; i < pre+3; i++ {
		feed(a, mix(uint64(i), 1)>>1, z.U8("x"))
	}
	ft.check("the result, the source updated")
	a.Reset()
	ft.check("the result, the source reset")
}

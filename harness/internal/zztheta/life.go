package zztheta

import (
	z "github.com/apache/datasketches-go/internal/zzsym"
	"github.com/apache/datasketches-go/theta"
)

func snapshot(s theta.Sketch) (es []uint64, th uint64, empty bool) {
	for e := range s.All() {
		es = append(es, e)
	}
	return es, s.Theta64(), s.IsEmpty()
}

func unchanged(s theta.Sketch, es []uint64, th uint64, empty bool, what string) {
	i, ok := 0, true
	for e := range s.All() {
		if i < len(es) {
			ok = z.And(ok, es[i] == e)
		}
		i++
	}
	z.Assert(z.And(ok, i == len(es)), what)
	z.Assert(s.Theta64() == th, what)
	z.Assert(s.IsEmpty() == empty, what)
}

// Alias: compact forms and set-operation results do not follow their sources, and set
// operations do not modify their operands.
//
// zz: C29 q Alias 2 1
// zz: C29 q Alias 61 0
// zz: C29 t Alias 62 2
func Alias(pre, sym int) {
	presetSeed()
	z.Merging(false)
	s, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(5))
	must(err, "new")
	prefill(s, pre, 0, 1)
	for i := 0; i < sym; i++ {
		z.Assert(okErr(upd(s, uint64(700+i), symHash(2))), "update")
	}
	es, th, em := snapshot(s)
	cu, co := s.Compact(false), s.Compact(true)
	cues, _, _ := snapshot(cu)
	coes, _, _ := snapshot(co)
	other, err := theta.Decode(v3([]uint64{5, 0x45, 99}, 1000, true, seedHash), seed)
	must(err, "decode")
	oes, oth, oem := snapshot(other)
	u, err := theta.NewUnion(theta.WithUnionLgK(5))
	must(err, "new union")
	must(u.Update(s), "union")
	ur, err := u.Result(false)
	must(err, "result")
	ures, urth, urem := snapshot(ur)
	must(u.Update(other), "union")
	x := theta.NewIntersection()
	must(x.Update(cu), "inter")
	xr, err := x.Result(false)
	must(err, "result")
	xres, xrth, xrem := snapshot(xr)
	must(x.Update(other), "inter")
	ab, err := theta.ANotB(s, other, seed, true)
	must(err, "a not b")
	abes, abth, abem := snapshot(ab)
	unchanged(s, es, th, em, "set operations leave an update sketch unmodified")
	unchanged(cu, cues, th, em, "set operations leave a compact sketch unmodified")
	unchanged(other, oes, oth, oem, "set operations leave a compact sketch unmodified")
	// now change the source
	for i := 0; i < 2; i++ {
		z.Assert(okErr(upd(s, uint64(800+i), symHash(2))), "update")
	}
	s.Trim()
	unchanged(cu, cues, th, em, "a compact sketch does not follow its source")
	unchanged(co, coes, th, em, "a compact sketch does not follow its source")
	s.Reset()
	unchanged(cu, cues, th, em, "a compact sketch does not follow its source")
	unchanged(co, coes, th, em, "a compact sketch does not follow its source")
	unchanged(ur, ures, urth, urem, "a union result does not follow the union")
	unchanged(xr, xres, xrth, xrem, "an intersection result does not follow the intersection")
	unchanged(ab, abes, abth, abem, "an A-not-B result does not follow its operands")
	u.Reset()
	unchanged(ur, ures, urth, urem, "a union result does not follow the union")
	r2, err := u.Result(true)
	must(err, "result")
	z.Assert(r2.IsEmpty() && r2.NumRetained() == 0 && r2.Theta64() == theta.MaxTheta, "a reset union is empty")
	must(u.Update(co), "union")
	r2, err = u.Result(true)
	must(err, "result")
	w := make([]bool, len(coes))
	for i := range w {
		w[i] = true
	}
	checkResult(r2, coes, w, true)
}

// Reset: after a reset the sketch behaves like a new one of the same configuration.
//
// zz: C29 q Reset 3 2 10 3
// zz: C29 q Reset 62 1 10 3
// zz: C29 q Reset 62 1 10 1
// zz: C29 q Reset 20 2 5 0
// zz: C29 t Reset 62 2 5 2
func Reset(pre, sym, p10, rf int) {
	presetSeed()
	z.Merging(false)
	mk := func() *theta.QuickSelectUpdateSketch {
		s, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(5), theta.WithUpdateSketchP(float32(p10)/10), theta.WithUpdateSketchResizeFactor(theta.ResizeFactor(rf)))
		must(err, "new")
		return s
	}
	a, b := mk(), mk()
	prefill(a, pre, 0, 1)
	for i := 0; i < sym; i++ {
		z.Assert(okErr(upd(a, uint64(900+i), symHash(2))), "update")
	}
	a.Reset()
	z.Assert(a.IsEmpty() && a.NumRetained() == 0 && a.Theta64() == theta.MaxTheta, "a reset sketch is empty")
	z.Assert(!a.IsEstimationMode(), "a reset sketch is not in estimation mode")
	eq := func() {
		ae, ath, aem := snapshot(a)
		unchanged(b, ae, ath, aem, "a reset sketch behaves like a new one")
		z.Assert(a.NumRetained() == b.NumRetained(), "a reset sketch behaves like a new one")
	}
	eq()
	for i := 0; i < pre; i++ {
		h := mix(uint64(i), 4) >> 1
		e1, e2 := upd(a, uint64(2000+i), h), upd(b, uint64(2000+i), h)
		z.Assert(e1 == e2, "a reset sketch behaves like a new one")
	}
	for i := 0; i < sym; i++ {
		h := symHash(2)
		e1, e2 := upd(a, uint64(3000+i), h), upd(b, uint64(3000+i), h)
		z.Assert(e1 == e2, "a reset sketch behaves like a new one")
	}
	eq()
}

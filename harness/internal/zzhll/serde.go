package zzhll

import (
	"github.com/apache/datasketches-go/hll"
	z "github.com/apache/datasketches-go/internal/zzsym"
)

func estimates(s hll.HllSketch) [8]float64 {
	var r [8]float64
	var err error
	r[0], err = s.GetEstimate()
	must(err, "estimate")
	r[1], err = s.GetCompositeEstimate()
	must(err, "composite estimate")
	for sd := 1; sd <= 3; sd++ {
		r[2*sd], err = s.GetLowerBound(sd)
		must(err, "bound")
		r[2*sd+1], err = s.GetUpperBound(sd)
		must(err, "bound")
	}
	return r
}

// alike: both sketches hold the same and answer alike.
func alike(a, b hll.HllSketch, est bool, label string) {
	z.Assert(a.GetCurMode() == b.GetCurMode(), label+": mode")
	z.Assert(a.GetTgtHllType() == b.GetTgtHllType(), label+": type")
	z.Assert(a.GetLgConfigK() == b.GetLgConfigK(), label+": size")
	z.Assert(a.IsEmpty() == b.IsEmpty(), label+": emptiness")
	z.Assert(a.GetUpdatableSerializationBytes() == b.GetUpdatableSerializationBytes(), label+": announced size")
	x, y := image(a), image(b)
	if int(a.GetCurMode()) == 2 {
		z.Assert(same(x[8:36], y[8:36]) && x[6] == y[6], label+": estimator state")
		z.Assert(x[5]&(16|32) == y[5]&(16|32), label+": flags")
		ra, rb := registers(x), registers(y)
		ok := true
		for i := range ra {
			ok = z.And(ok, ra[i] == rb[i])
		}
		z.Assert(ok, label+": registers")
	}
	if est {
		z.Assert(estimates(a) == estimates(b), label+": estimates")
	}
}

// scribble overwrites a slice.
func scribble(b []byte) {
	for i := range b {
		b[i] = 0xA5
	}
}

// Serde: both images of a sketch read back give the sketch, which goes on independently of the
// bytes and of the original, and like it when both get more items. The sketch is the one
// described by code (as for Union; src 1: a union result of it with code2).
//
// zz: C10 q Serde 400 0
// zz: C10 q Serde 401 0
// zz: C10 q Serde 412 0
// zz: C10 q Serde 423 0
// zz: C10 q Serde 403 0
// zz: C10 q Serde 413 0
// zz: C10 q Serde 404 0
// zz: C10 q Serde 405 0
// zz: C10 q Serde 415 0
// zz: C10 q Serde 425 0
// zz: C10 q Serde 504 0
// zz: C10 q Serde 803 0
// zz: C10 q Serde 1013 0
// zz: C10 q Serde 806 0
// zz: C10 q Serde 405 413
// zz: C10 q Serde 504 403
// zz: C10 q Serde 803 812
// zz: C10 q Serde 414 425
// zz: C10 t Serde 816 0
// zz: C10 t Serde 826 0
// zz: C10 t Serde 806 806
func Serde(code, code2 int) {
	z.HashFree = true
	z.Merging(false)
	slots := []uint64{3, 1<<21 | 8<<4 | 10}
	s, all := input(code, 1, slots, false)
	lgK := s.GetLgConfigK()
	if code2 != 0 {
		s2, all2 := input(code2, 2, slots, false)
		u := newUnion(lgK)
		must(u.UpdateSketch(s), "update")
		must(u.UpdateSketch(s2), "update")
		r, err := u.GetResult(s.GetTgtHllType())
		must(err, "result")
		s, all = r, append(all, all2...)
	}
	updatable := image(s)
	compact, err := s.ToCompactSlice()
	must(err, "serialize")
	z.Assert(len(updatable) == s.GetUpdatableSerializationBytes(), "the updatable size is as announced")
	for i, b := range [][]byte{updatable, compact} {
		label := [...]string{"updatable", "compact"}[i]
		r, err := hll.NewHllSketchFromSlice(b, i == 0)
		must(err, "reading "+label)
		alike(s, r, false, label)
		checkSame(r, all, label)
		scribble(b)
		checkSame(r, all, label+", after the slice was overwritten")
		// the same items fed to both
		o, err := s.Copy()
		must(err, "copy")
		f := &feeder{id: 77 << 32}
		g := &feeder{id: 77 << 32}
		for j := uint64(0); j < 3; j++ {
			f.add(o, j*9+2, 16+int(j)*16)
			g.add(r, j*9+2, 16+int(j)*16)
		}
		alike(o, r, false, label+", after further updates")
		checkSame(r, append(append([]coup{}, all...), g.all...), label+", after further updates")
		checkSame(s, all, "the original")
	}
}

func checkSame(s hll.HllSketch, all []coup, label string) {
	var want []uint64
	if int(s.GetCurMode()) == 2 {
		want = model(all, s.GetLgConfigK())
	}
	checkImages(s, all, want, label)
}

// SerdeEst: estimates and bounds survive, for the values of a few items chosen from a list.
//
// zz: C10 q SerdeEst 401
// zz: C10 q SerdeEst 403
// zz: C10 q SerdeEst 405
// zz: C10 q SerdeEst 415
// zz: C10 q SerdeEst 424
// zz: C10 q SerdeEst 803
// zz: C10 q SerdeEst 806
func SerdeEst(code int) {
	z.HashFree = true
	z.Merging(false)
	s, _ := input(code, 1, []uint64{3, 10}, true)
	c, err := s.ToCompactSlice()
	must(err, "serialize")
	for i, b := range [][]byte{image(s), c} {
		r, err := hll.NewHllSketchFromSlice(b, i == 0)
		must(err, "reading")
		alike(s, r, true, "read back")
	}
}

// use calls everything a sketch read from bytes offers; only panics and endless loops matter.
func use(s hll.HllSketch, fp bool) {
	_ = s.IsEmpty()
	_, _ = s.ToCompactSlice()
	_, _ = s.ToUpdatableSlice()
	_ = s.GetUpdatableSerializationBytes()
	if fp {
		_, _ = s.GetEstimate()
		_, _ = s.GetCompositeEstimate()
		_, _ = s.GetLowerBound(2)
		_, _ = s.GetUpperBound(2)
	}
	for t := hll.TgtHllTypeHll4; t <= hll.TgtHllTypeHll8; t++ {
		if c, err := s.CopyAs(t); err == nil {
			_, _ = c.ToCompactSlice()
		}
	}
	if u, err := hll.NewUnion(s.GetLgConfigK()); err == nil {
		_ = u.UpdateSketch(s)
		_, _ = u.ToCompactSlice()
	}
	for j := uint64(0); j < 3; j++ {
		z.PresetHash(0, z.LE8(j), seed, j*5, ^uint64(0)>>(j*17+1))
		_ = s.UpdateUInt64(j)
	}
	_, _ = s.ToCompactSlice()
}

// read decodes b both ways and uses what comes out.
func read(b []byte, fp bool) {
	c := append([]byte{}, b...)
	s, err := hll.NewHllSketchFromSlice(b, true)
	if err == nil {
		z.Cover("accepted")
		use(s, fp)
	}
	u, err := hll.NewUnionFromSlice(c)
	if err == nil {
		_, _ = u.ToCompactSlice()
		_, _ = u.GetResult(hll.TgtHllTypeHll4)
	}
}

// Bytes: n arbitrary bytes.
//
// zz: C26 q Bytes 0 0
// zz: C26 q Bytes 3 0
// zz: C26 q Bytes 8 0
// zz: C26 q Bytes 12 1 | covers=accepted maxconc=400
// zz: C26 q Bytes 16 1 | maxconc=400
// zz: C26 t Bytes 20 2 | maxconc=800
func Bytes(n, hdr int) {
	z.HashFree = true
	z.Merging(false)
	b := z.Bytes("b", n)
	if hdr != 0 {
		b[0], b[1], b[2] = byte(1+hdr), 1, 7
	}
	read(b, false)
}

// Corrupt: the image of the sketch of code, in updatable (form 0) or compact form, with one
// arbitrary byte in the range [lo,hi) or cut off there.
//
// zz: C26 q Corrupt 403 0 0 8 | covers=accepted maxconc=300
// zz: C26 q Corrupt 404 0 32 40 | covers=accepted maxconc=300
// zz: C26 q Corrupt 404 0 40 64 | covers=accepted maxconc=300
// zz: C26 q Corrupt 404 1 0 8 | covers=accepted maxconc=300
// zz: C26 q Corrupt 404 1 32 40 | covers=accepted maxconc=300
// zz: C26 q Corrupt 404 1 40 84 | covers=accepted maxconc=300
// zz: C26 q Corrupt 413 0 0 8 | covers=accepted maxconc=300
// zz: C26 q Corrupt 413 0 32 53 | covers=accepted maxconc=300
// zz: C26 q Corrupt 425 0 32 56 | covers=accepted maxconc=300
// zz: C26 t Corrupt 402 0 0 16 | covers=accepted maxconc=300
// zz: C26 q Corrupt 803 0 0 16 | covers=accepted maxconc=300
// zz: C26 q Corrupt 803 1 0 16 | covers=accepted maxconc=300
// zz: C26 t Corrupt 803 0 16 140 | covers=accepted maxconc=300
func Corrupt(code, form, lo, hi int) {
	z.HashFree = true
	z.Merging(false)
	f := &feeder{}
	_ = f
	s, _ := input(code, 1, []uint64{3}, true)
	b := image(s)
	if form == 1 {
		var err error
		b, err = s.ToCompactSlice()
		must(err, "serialize")
	}
	at := lo + z.Choose("at", hi-lo)
	if at >= len(b) {
		return
	}
	if z.Choose("cut", 2) == 1 {
		read(b[:at], true)
		return
	}
	b[at] = z.U8("byte")
	read(b, false)
}

// Doubles: the images with extreme estimator state.
//
// zz: C26 q Doubles 405 | covers=accepted
// zz: C26 q Doubles 413 | covers=accepted
// zz: C26 q Doubles 425 | covers=accepted
func Doubles(code int) {
	z.HashFree = true
	z.Merging(false)
	s, _ := input(code, 1, []uint64{3}, true)
	b := image(s)
	vals := [...]uint64{0, 1, 1 << 63, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x3f50000000000000, 0xc03e000000000000, 0x4024000000000000}
	at := 8 + 8*z.Choose("at", 3)
	copy(b[at:], z.LE8(vals[z.Choose("val", len(vals))]))
	if z.Bool("ooo") {
		b[5] |= 16
	}
	read(b, true)
}

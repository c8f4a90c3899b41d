package zztuple

import (
	"bytes"

	z "github.com/apache/datasketches-go/internal/zzsym"
	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"
)

// Array-of-numbers sketches, with two 64-bit integers per key.

type aonSum = *tuple.ArrayOfNumbersSummary[int64]

type kv2 struct {
	h    uint64
	a, b int64
}

type aonPolicy struct{}

// Apply combines order-sensitively.
func (aonPolicy) Apply(x, y aonSum) {
	for i, v := range y.Values() {
		x.Values()[i] = acat(x.Values()[i], v)
	}
}

func acat(x, y int64) int64 { return x<<16 | y&0xffff }

func newAon(lgk uint8) *tuple.ArrayOfNumbersUpdateSketch[int64] {
	s, err := tuple.NewArrayOfNumbersUpdateSketch[int64](2, tuple.WithUpdateSketchLgK(lgk))
	must(err, "new")
	return s
}

func feedAon(s *tuple.ArrayOfNumbersUpdateSketch[int64], h uint64, a, b int64) {
	nextID++
	z.PresetHash(0, z.LE8(nextID), seed, h<<1, 0)
	z.Assert(okErr(s.UpdateInt64(int64(nextID), []int64{a, b})), "update returns nil or below-theta")
}

func checkAon(s tuple.ArrayOfNumbersSketch[int64], m []kv2, want []bool) {
	th := s.Theta64()
	found := make([]bool, len(m))
	dup, ok, sum := false, true, true
	cnt := 0
	for h, e := range s.All() {
		in := false
		for i := range m {
			eq := m[i].h == h
			w := true
			if want != nil {
				w = want[i]
			}
			in = z.Or(in, z.And(eq, w))
			dup = z.Or(dup, z.And(eq, found[i]))
			found[i] = z.Or(found[i], eq)
			sum = z.And(sum, z.Implies(z.And(eq, w), z.And(m[i].a == e.Values()[0], m[i].b == e.Values()[1])))
		}
		z.Assert(len(e.Values()) == 2, "every summary has the configured number of values")
		ok = z.And(ok, z.And(in, z.And(h != 0, h < th)))
		cnt++
	}
	z.Assert(ok, "every retained key is of the set, nonzero and below theta")
	z.Assert(!dup, "no key is retained twice")
	z.Assert(sum, "every retained key carries its summary")
	for i := range m {
		w := z.And(m[i].h != 0, m[i].h < th)
		if want != nil {
			w = z.And(w, want[i])
		}
		z.Assert(z.Implies(w, found[i]), "every key of the set below theta is retained")
	}
	z.Assert(int(s.NumRetained()) == cnt, "NumRetained agrees with iteration")
	z.Observe(th)
	z.Observe(uint64(cnt))
	z.Assert(s.NumValuesInSummary() == 2, "the number of values per summary is kept")
}

func ascAon(s tuple.ArrayOfNumbersSketch[int64]) bool {
	asc, prev := true, uint64(0)
	for h := range s.All() {
		asc = z.And(asc, prev < h)
		prev = h
	}
	return asc
}

// AonUpdate is Update for arrays of numbers, whose summaries add up.
//
// zz: C06 q AonUpdate 0 3 2 0
// zz: C06 q AonUpdate 32 2 1 0
// zz: C06 q AonUpdate 60 2 1 1 | covers=estimation
// zz: C06 t AonUpdate 60 2 3 0 | covers=estimation
func AonUpdate(pre, sym, npat, trim int) {
	presetSeed()
	z.Merging(false)
	s := newAon(5)
	var m []kv2
	for i := 0; i < pre; i++ {
		h, x := mix(uint64(i), 1)>>1, int64(z.U32("x"))
		feedAon(s, h, x, 1)
		m = append(m, kv2{h, x, 1})
	}
	for i := 0; i < sym; i++ {
		h, x := symHash(npat), int64(z.U32("x"))
		feedAon(s, h, x, 2)
		seen := false
		for j := range m {
			eq := m[j].h == h
			m[j].a = int64(z.Ite(eq, uint64(m[j].a+x), uint64(m[j].a)))
			m[j].b = int64(z.Ite(eq, uint64(m[j].b+2), uint64(m[j].b)))
			seen = z.Or(seen, eq)
		}
		m = append(m, kv2{z.Ite(seen, 0, h), x, 2})
	}
	if trim == 1 {
		s.Trim()
		z.Assert(s.NumRetained() <= 32, "at most k after Trim")
	}
	checkAon(s, m, nil)
	c, err := s.Compact(pre < 30)
	must(err, "compact")
	z.Assert(c.Theta64() == s.Theta64() && c.IsEmpty() == s.IsEmpty() && c.NumRetained() == s.NumRetained(), "a compact form has the sketch's theta, count and emptiness")
	checkAon(c, m, nil)
	z.Assert(z.Or(pre >= 30, ascAon(c)), "an ordered compact form ascends")
	if s.IsEstimationMode() {
		z.Cover("estimation")
	}
}

type aonIn struct {
	s     tuple.ArrayOfNumbersSketch[int64]
	m     []kv2
	theta uint64
	empty bool
}

func encAon(m []kv2, th uint64, ordered, empty bool) []byte {
	flags := byte(0)
	if empty {
		flags |= 1 << 2
	}
	if len(m) > 0 {
		flags |= 1 << 3
	}
	if ordered {
		flags |= 1 << 4
	}
	b := []byte{1, 1, 9, 3, flags, 2, seedHash & 0xff, seedHash >> 8}
	b = append(b, z.LE8(th)...)
	if len(m) == 0 {
		return b
	}
	n := len(m)
	b = append(b, byte(n), byte(n>>8), 0, 0, 0, 0, 0, 0)
	for _, e := range m {
		b = append(b, z.LE8(e.h)...)
	}
	for _, e := range m {
		b = append(b, z.LE8(uint64(e.a))...)
		b = append(b, z.LE8(uint64(e.b))...)
	}
	return b
}

func mkAon(form, pre, salt, sym, npat int) aonIn {
	in := aonIn{theta: theta.MaxTheta}
	s := newAon(6)
	if form == fEmpty {
		in.s, in.empty = s, true
		return in
	}
	var m []kv2
	for i := 0; i < pre; i++ {
		m = append(m, kv2{mix(uint64(i), uint64(salt)) >> 1, int64(z.U8("v")), 3})
	}
	for i := 0; i < sym; i++ {
		h := symHash(npat)
		z.Assume(h != 0)
		for _, g := range m {
			z.Assume(g.h != h)
		}
		m = append(m, kv2{h, int64(z.U8("v")), 4})
	}
	switch form {
	case fUpdate, fCompact, fOrdered:
		for _, e := range m {
			feedAon(s, e.h, e.a, e.b)
		}
		in.m, in.theta, in.s = m, s.Theta64(), s
		if form != fUpdate {
			c, err := s.Compact(form == fOrdered)
			must(err, "compact")
			in.s = c
		}
		return in
	case fNone:
		m = nil
	}
	in.theta = z.Nondet("theta", 63)
	z.Assume(in.theta > 0)
	if form == fNone {
		z.Assume(in.theta < theta.MaxTheta)
	}
	for _, e := range m {
		z.Assume(e.h < in.theta)
	}
	if form == fDecO {
		for i := 1; i < len(m); i++ {
			for j := i; j > 0 && m[j].h < m[j-1].h; j-- {
				m[j], m[j-1] = m[j-1], m[j]
			}
		}
	}
	c, err := tuple.DecodeArrayOfNumbersCompactSketch[int64](encAon(m, in.theta, form == fDecO, false), seed)
	must(err, "decode")
	in.m, in.s = m, c
	return in
}

func (in aonIn) same(what string) {
	ok, n := true, 0
	for h, e := range in.s.All() {
		f := false
		for _, x := range in.m {
			f = z.Or(f, z.And(x.h == h, z.And(x.a == e.Values()[0], x.b == e.Values()[1])))
		}
		ok = z.And(ok, f)
		n++
	}
	z.Assert(z.And(ok, n == len(in.m)), what)
	z.Assert(in.s.Theta64() == in.theta, what)
	z.Assert(in.s.IsEmpty() == in.empty, what)
}

func keepAon(r tuple.ArrayOfNumbersSketch[int64]) aonIn {
	k := aonIn{s: r, theta: r.Theta64(), empty: r.IsEmpty()}
	for h, e := range r.All() {
		k.m = append(k.m, kv2{h, e.Values()[0], e.Values()[1]})
	}
	return k
}

func headAon(r *tuple.ArrayOfNumbersCompactSketch[int64], ordered bool) {
	if r.IsOrdered() {
		z.Assert(ascAon(r), "an ordered result ascends")
	} else {
		z.Assert(!ordered, "the result is ordered when asked for")
	}
	sh, err := r.SeedHash()
	must(err, "seed hash")
	z.Assert(sh == seedHash, "the result's seed hash is that of the seed")
}

// AonUnion is Union for arrays of numbers.
//
// zz: C06 q AonUnion 0 0 2 3 0 1 1
// zz: C06 q AonUnion 4 0 1 3 0 2 0
// zz: C06 q AonUnion 7 0 0 4 0 2 1
// zz: C06 q AonUnion 8 0 0 3 0 2 0
// zz: C06 q AonUnion 2 33 0 4 0 1 1 | covers=trimmed
// zz: C06 q AonUnion 4 25 0 0 25 1 1 | covers=trimmed
// zz: C06 q AonUnion 2 40 0 1 41 1 0 | covers=rebuilt
func AonUnion(formA, preA, symA, formB, preB, symB, ordered int) {
	presetSeed()
	z.Merging(false)
	u, err := tuple.NewArrayOfNumbersSketchUnion[int64](aonPolicy{}, 2, tuple.WithUnionLgK(5))
	must(err, "new union")
	a := mkAon(formA, preA, 0, symA, 2)
	b := mkAon(formB, preB, 0, symB, 2)
	must(u.Update(a.s), "union update")
	must(u.Update(b.s), "union update")
	a.same("a union leaves its first operand unmodified")
	b.same("a union leaves its second operand unmodified")
	r, err := u.Result(ordered == 1)
	must(err, "result")
	uni := append([]kv2{}, a.m...)
	for _, e := range b.m {
		seen := false
		for i := range uni {
			eq := uni[i].h == e.h
			uni[i].a = int64(z.Ite(eq, uint64(acat(uni[i].a, e.a)), uint64(uni[i].a)))
			uni[i].b = int64(z.Ite(eq, uint64(acat(uni[i].b, e.b)), uint64(uni[i].b)))
			seen = z.Or(seen, eq)
		}
		uni = append(uni, kv2{z.Ite(seen, 0, e.h), e.a, e.b})
	}
	checkAon(r, uni, nil)
	headAon(r, ordered == 1)
	m := minU(a.theta, b.theta)
	z.Assert(r.Theta64() <= m, "theta at most every input's theta")
	z.Assert(z.Implies(r.Theta64() < m, r.NumRetained() == 32), "theta only drops below the inputs' when k keys stay")
	z.Assert(r.IsEmpty() == (a.empty && b.empty), "empty exactly when all inputs were")
	k := keepAon(r)
	must(u.Update(a.s), "union update")
	k.same("a union result does not follow the union")
	u.Reset()
	k.same("a union result does not follow the union")
	a.same("resetting a union leaves its operands unmodified")
	if preA+preB > 32 {
		z.Cover("trimmed")
	}
	if preA+preB > 64 {
		z.Cover("rebuilt")
	}
}

// AonInter is Inter for arrays of numbers.
//
// zz: C06 q AonInter 3 0 2 4 0 1 1
// zz: C06 q AonInter 4 0 2 0 0 1 0
// zz: C06 q AonInter 7 0 0 4 0 1 1
// zz: C06 q AonInter 8 0 0 4 0 1 1
// zz: C06 q AonInter 4 16 1 0 16 1 1 | covers=match
func AonInter(formA, preA, symA, formB, preB, symB, ordered int) {
	presetSeed()
	z.Merging(false)
	a := mkAon(formA, preA, 0, symA, 2)
	b := mkAon(formB, preB, 0, symB, 2)
	x := tuple.NewArrayOfNumbersSketchIntersection[int64](aonPolicy{}, 2)
	_, err := x.Result(true)
	z.Assert(!x.HasResult() && err != nil, "no result before an update")
	must(x.Update(a.s), "update")
	must(x.Update(b.s), "update")
	a.same("an intersection leaves its first operand unmodified")
	b.same("an intersection leaves its second operand unmodified")
	r, err := x.Result(ordered == 1)
	must(err, "result")
	m := minU(a.theta, b.theta)
	exp := append([]kv2{}, a.m...)
	want := make([]bool, len(exp))
	none := true
	for i := range exp {
		for _, e := range b.m {
			eq := exp[i].h == e.h
			exp[i].a = int64(z.Ite(eq, uint64(acat(exp[i].a, e.a)), uint64(exp[i].a)))
			exp[i].b = int64(z.Ite(eq, uint64(acat(exp[i].b, e.b)), uint64(exp[i].b)))
			want[i] = z.Or(want[i], eq)
		}
		none = z.And(none, !z.And(want[i], exp[i].h < m))
	}
	checkAon(r, exp, want)
	headAon(r, ordered == 1)
	if a.empty || b.empty {
		z.Assert(r.IsEmpty(), "intersecting an empty set gives an empty set")
	} else {
		z.Assert(r.Theta64() == m, "theta is the minimum of the inputs'")
		z.Assert(r.IsEmpty() == z.And(none, m == theta.MaxTheta), "empty exactly when nothing can be in the set")
	}
	k := keepAon(r)
	must(x.Update(a.s), "update")
	k.same("an intersection result does not follow the intersection")
	a.same("an intersection leaves its operand unmodified")
	if r.NumRetained() > 0 {
		z.Cover("match")
	}
}

// AonAnotB is AnotB for arrays of numbers.
//
// zz: C06 q AonAnotB 3 0 2 4 0 1 1
// zz: C06 q AonAnotB 4 0 2 4 0 1 0
// zz: C06 q AonAnotB 4 0 2 0 0 2 1
// zz: C06 q AonAnotB 7 0 0 4 0 1 1
// zz: C06 q AonAnotB 3 0 2 8 0 0 1
// zz: C06 q AonAnotB 3 0 2 7 0 0 1
func AonAnotB(formA, preA, symA, formB, preB, symB, ordered int) {
	presetSeed()
	z.Merging(false)
	a := mkAon(formA, preA, 0, symA, 2)
	b := mkAon(formB, preB, 0, symB, 2)
	r, err := tuple.ArrayOfNumbersSketchANotB[int64](a.s, b.s, seed, ordered == 1)
	must(err, "a not b")
	a.same("A-not-B leaves A unmodified")
	b.same("A-not-B leaves B unmodified")
	m := minU(a.theta, b.theta)
	want := make([]bool, len(a.m))
	none := true
	for i := range a.m {
		want[i] = true
		for _, e := range b.m {
			want[i] = z.And(want[i], a.m[i].h != e.h)
		}
		none = z.And(none, !z.And(want[i], a.m[i].h < m))
	}
	checkAon(r, a.m, want)
	headAon(r, ordered == 1)
	if a.empty {
		z.Assert(r.IsEmpty(), "empty minus anything is empty")
	} else {
		z.Assert(r.Theta64() == m, "theta is the minimum of the inputs'")
		z.Assert(r.IsEmpty() == z.And(none, m == theta.MaxTheta), "empty exactly when nothing can be in the set")
	}
	for _, e := range r.All() {
		e.Values()[0]++
	}
	a.same("an A-not-B result shares nothing with A")
}

// AonMismatch: operands with another number of values per summary are refused.
//
// zz: C06 q AonMismatch
func AonMismatch() {
	presetSeed()
	z.Merging(false)
	nv := z.U8("nvals")
	z.Assume(nv != 0)
	a := mkAon(fUpdate, 2, 0, 0, 1)
	u, err := tuple.NewArrayOfNumbersSketchUnion[int64](aonPolicy{}, nv, tuple.WithUnionLgK(5))
	must(err, "new union")
	z.Assert((u.Update(a.s) == nil) == (nv == 2), "a union accepts exactly its number of values per summary")
	x := tuple.NewArrayOfNumbersSketchIntersection[int64](aonPolicy{}, nv)
	z.Assert((x.Update(a.s) == nil) == (nv == 2), "an intersection accepts exactly its number of values per summary")
}

// ---- serialization (C07)

// Serde: encode and decode a compact sketch obtained by compacting an update sketch, or decoded
// from hand-made bytes with arbitrary theta.
//
// zz: C07 q Serde 7 0 0
// zz: C07 q Serde 8 0 0
// zz: C07 q Serde 0 0 1
// zz: C07 q Serde 1 0 2
// zz: C07 q Serde 2 0 2
// zz: C07 q Serde 3 0 1
// zz: C07 q Serde 3 0 2
// zz: C07 q Serde 4 0 3
// zz: C07 q Serde 4 3 1
// zz: C07 q Serde 1 66 1
// zz: C07 q Serde 2 66 1
// zz: C07 t Serde 4 8 3
func Serde(form, pre, sym int) {
	presetSeed()
	z.Merging(false)
	in := mk(form, pre, 0, sym, 2)
	c, ok := in.s.(*tuple.CompactSketch[*seqSum])
	if !ok {
		var err error
		c, err = tuple.NewCompactSketch[*seqSum](in.s, false)
		must(err, "compact")
	}
	var w bytes.Buffer
	e := tuple.NewEncoder[*seqSum](&w, writeSeq)
	must(e.Encode(c), "encode")
	b := w.Bytes()
	d, err := tuple.Decode[*seqSum](b, seed, readSeq)
	must(err, "decoding what was encoded")
	eqSketch(c, d)
	// and again
	var w2 bytes.Buffer
	e2 := tuple.NewEncoder[*seqSum](&w2, writeSeq)
	must(e2.Encode(d), "encode")
	same := len(b) == w2.Len()
	for i, x := range w2.Bytes() {
		if i < len(b) {
			same = z.And(same, x == b[i])
		}
	}
	z.Assert(same, "encoding a decoded sketch gives the same bytes")
	// a truncated image is refused
	n := len(b) - 1
	if len(b) <= 64 {
		n = z.Choose("cut", len(b))
	}
	_, err = tuple.Decode[*seqSum](b[:n], seed, readSeq)
	z.Assert(err != nil, "a truncated image is refused")
}

func eqSketch(c, d *tuple.CompactSketch[*seqSum]) {
	var hs, vs []uint64
	for h, e := range c.All() {
		hs, vs = append(hs, h), append(vs, e.v)
	}
	i, ok := 0, true
	for h, e := range d.All() {
		if i < len(hs) {
			ok = z.And(ok, z.And(hs[i] == h, vs[i] == e.v))
		}
		i++
	}
	z.Assert(z.And(ok, i == len(hs)), "decoding restores the keys and summaries in order")
	z.Assert(c.NumRetained() == d.NumRetained(), "decoding restores the count")
	z.Assert(c.Theta64() == d.Theta64(), "decoding restores theta")
	z.Assert(c.IsEmpty() == d.IsEmpty(), "decoding restores emptiness")
	z.Assert(c.IsOrdered() == d.IsOrdered(), "decoding restores order")
	z.Assert(c.IsEstimationMode() == d.IsEstimationMode(), "decoding restores the mode")
	s1, e1 := c.SeedHash()
	s2, e2 := d.SeedHash()
	z.Assert(e1 == nil && e2 == nil && s1 == s2, "decoding restores the seed hash")
	z.Observe(d.Theta64())
}

// AonSerde is Serde for arrays of numbers.
//
// zz: C07 q AonSerde 7 0 0
// zz: C07 q AonSerde 8 0 0
// zz: C07 q AonSerde 0 0 1
// zz: C07 q AonSerde 1 0 2
// zz: C07 q AonSerde 2 0 2
// zz: C07 q AonSerde 3 0 2
// zz: C07 q AonSerde 4 3 2
// zz: C07 q AonSerde 1 66 1
func AonSerde(form, pre, sym int) {
	presetSeed()
	z.Merging(false)
	in := mkAon(form, pre, 0, sym, 2)
	c, ok := in.s.(*tuple.ArrayOfNumbersCompactSketch[int64])
	if !ok {
		var err error
		c, err = tuple.NewArrayOfNumbersCompactSketch[int64](in.s, false)
		must(err, "compact")
	}
	var w bytes.Buffer
	e := tuple.NewArrayOfNumbersSketchEncoder[int64](&w)
	must(e.Encode(c), "encode")
	b := w.Bytes()
	d, err := tuple.DecodeArrayOfNumbersCompactSketch[int64](b, seed)
	must(err, "decoding what was encoded")
	k := keepAon(c)
	i, ok := 0, true
	for h, e := range d.All() {
		if i < len(k.m) {
			ok = z.And(ok, z.And(k.m[i].h == h, z.And(k.m[i].a == e.Values()[0], k.m[i].b == e.Values()[1])))
		}
		i++
	}
	z.Assert(z.And(ok, i == len(k.m)), "decoding restores the keys and values in order")
	z.Assert(c.NumRetained() == d.NumRetained(), "decoding restores the count")
	z.Assert(c.Theta64() == d.Theta64(), "decoding restores theta")
	z.Assert(c.IsEmpty() == d.IsEmpty(), "decoding restores emptiness")
	z.Assert(c.IsOrdered() == d.IsOrdered(), "decoding restores order")
	z.Assert(c.NumValuesInSummary() == d.NumValuesInSummary(), "decoding restores the number of values")
	s1, e1 := c.SeedHash()
	s2, e2 := d.SeedHash()
	z.Assert(e1 == nil && e2 == nil && s1 == s2, "decoding restores the seed hash")
	z.Observe(d.Theta64())
	if len(b) <= 64 {
		n := z.Choose("cut", len(b))
		_, err = tuple.Decode[*seqSum](b[:n], seed, readSeq)
		z.Assert(err != nil, "a truncated image is refused")
		return
	}
	n := len(b) - 1
	_, err = tuple.DecodeArrayOfNumbersCompactSketch[int64](b[:n], seed)
	z.Assert(err != nil, "a truncated image is refused")
}

// AonFloat: every 64-bit pattern of a float value survives.
//
// zz: C07 q AonFloat
func AonFloat() {
	presetSeed()
	z.Merging(false)
	s, err := tuple.NewArrayOfNumbersUpdateSketch[float64](1, tuple.WithUpdateSketchLgK(5))
	must(err, "new")
	nextID++
	h := z.Nondet("h", 63)
	z.Assume(z.And(h != 0, h < theta.MaxTheta))
	z.PresetHash(0, z.LE8(nextID), seed, h<<1, 0)
	c0, err := s.Compact(true)
	must(err, "compact")
	var w bytes.Buffer
	e := tuple.NewArrayOfNumbersSketchEncoder[float64](&w)
	must(e.Encode(c0), "encode")
	d0, err := tuple.DecodeArrayOfNumbersCompactSketch[float64](w.Bytes(), seed)
	must(err, "decode")
	z.Assert(d0.IsEmpty() && d0.NumRetained() == 0, "an empty sketch stays empty")
	b := encAon([]kv2{{h, z.I64("v"), 0}}, theta.MaxTheta, true, false)
	b[5] = 1
	b = b[:len(b)-8]
	d, err := tuple.DecodeArrayOfNumbersCompactSketch[float64](b, seed)
	must(err, "decode")
	var w2 bytes.Buffer
	e = tuple.NewArrayOfNumbersSketchEncoder[float64](&w2)
	must(e.Encode(d), "encode")
	same := w2.Len() == len(b)
	for i, x := range w2.Bytes() {
		if i < len(b) {
			same = z.And(same, x == b[i])
		}
	}
	z.Assert(same, "encoding a decoded sketch gives the same bytes")
}

// Strings: the array-of-strings summary survives its own encoding.
//
// zz: C07 q Strings 0
// zz: C07 q Strings 1
// zz: C07 q Strings 2
func Strings(n int) {
	z.Merging(false)
	var vals []string
	for i := 0; i < n; i++ {
		vals = append(vals, string(z.Bytes("s", z.Choose("len", 4))))
	}
	s := tuple.NewArrayOfStringsSummaryFunc()
	s.Update(vals)
	var w bytes.Buffer
	must(tuple.ArrayOfStringsSummaryWriter(&w, s), "write")
	b := append([]byte{}, w.Bytes()...)
	r := bytes.NewReader(b)
	d, err := tuple.ArrayOfStringsSummaryReader(r)
	must(err, "read")
	z.Assert(r.Len() == 0, "reading consumes what was written")
	var w2 bytes.Buffer
	must(tuple.ArrayOfStringsSummaryWriter(&w2, d), "write")
	same := w2.Len() == len(b)
	for i, x := range w2.Bytes() {
		if i < len(b) {
			same = z.And(same, x == b[i])
		}
	}
	z.Assert(same, "strings survive")
	in, err := tuple.ArrayOfStringsInlineSummaryReader(bytes.NewReader(b))
	must(err, "read")
	var w3 bytes.Buffer
	must(tuple.ArrayOfStringsInlineSummaryWriter(&w3, in), "write")
	same = w3.Len() == len(b)
	for i, x := range w3.Bytes() {
		if i < len(b) {
			same = z.And(same, x == b[i])
		}
	}
	z.Assert(same, "strings survive")
	// the image itself: total length, count, then each string with its length
	o := 5
	ok := true
	for _, v := range vals {
		ok = z.And(ok, z.And(b[o] == byte(len(v)), z.And(b[o+1] == 0, z.And(b[o+2] == 0, b[o+3] == 0))))
		o += 4
		for i := 0; i < len(v); i++ {
			ok = z.And(ok, b[o+i] == v[i])
		}
		o += len(v)
	}
	z.Assert(z.And(ok, z.And(o == len(b), int(b[0]) == len(b))), "the image holds the strings in order")
	cut := z.Choose("cut", len(b))
	_, err = tuple.ArrayOfStringsSummaryReader(bytes.NewReader(b[:cut]))
	z.Assert(err != nil, "a truncated image is refused")
}

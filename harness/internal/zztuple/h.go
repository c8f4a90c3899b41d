// Package zztuple: harnesses over the public API of tuple.
package zztuple

import (
	"io"

	z "github.com/apache/datasketches-go/internal/zzsym"
	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"
)

func mix(i, salt uint64) uint64 {
	x := (i+1)*0x9E3779B97F4A7C15 + salt*0xD1B54A32D192ED03
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	return x
}

const seed = 9001
const seedHash = 0x1357

func presetSeed() {
	z.HashFree = true
	z.PresetHash(0, z.LE8(seed), 0, 0x24680000_00000000|seedHash, 7)
	z.PresetHash(0, z.LE8(seed+1), 0, 0x24680000_00000000|0x2222, 7)
}

func must(err error, what string) {
	z.Assert(err == nil, what)
}

// seqSum is an order-sensitive summary: it records the values fed, 8 bits each.
type seqSum struct{ v uint64 }

func (s *seqSum) Reset()               { s.v = 0 }
func (s *seqSum) Clone() tuple.Summary { return &seqSum{s.v} }
func (s *seqSum) Update(x uint8)       { s.v = s.v<<8 | uint64(x) }
func newSeq() *seqSum                  { return &seqSum{} }
func updFunc(s *seqSum, x uint8) *seqSum {
	return &seqSum{s.v<<8 | uint64(x)}
}

// catPolicy appends the incoming summary to the internal one.
type catPolicy struct{}

func (catPolicy) Apply(a, b *seqSum)    { a.v = cat(a.v, b.v) }
func cat(a, b uint64) uint64            { return a<<16 | b&0xffff }
func mergeFunc(a, b *seqSum) *seqSum    { return &seqSum{cat(a.v, b.v)} }
func mergeInPlace(a, b *seqSum) *seqSum { a.v = cat(a.v, b.v); return a }
func newSketch(lgk uint8, fn int) *tuple.UpdateSketch[*seqSum, uint8] {
	var s *tuple.UpdateSketch[*seqSum, uint8]
	var err error
	if fn == 1 {
		s, err = tuple.NewUpdateSketchWithSummaryUpdateFunc[*seqSum, uint8](newSeq, updFunc, tuple.WithUpdateSketchLgK(lgk))
	} else {
		s, err = tuple.NewUpdateSketch[*seqSum, uint8](newSeq, tuple.WithUpdateSketchLgK(lgk))
	}
	must(err, "new")
	return s
}

func symHash(npat int) uint64 {
	pats := [...]uint64{0x0005, 0x0045, 0x1fc5, 0x0000, 0x003f, 0x0fc0}
	hi := z.Nondet("hi", 50)
	return hi<<13 | pats[z.Choose("pat", npat)]
}

var nextID uint64 = 5000

func okErr(err error) bool {
	return err == nil || err == tuple.ErrHashExceedsTheta || err == tuple.ErrZeroHashValue
}

// feed updates s with an item whose hash is h and the value x.
func feed(s *tuple.UpdateSketch[*seqSum, uint8], h uint64, x uint8) {
	nextID++
	z.PresetHash(0, z.LE8(nextID), seed, h<<1, 0)
	z.Assert(okErr(s.UpdateInt64(int64(nextID), x)), "update returns nil or below-theta")
}

type kv struct{ h, v uint64 }

// fold adds one update to the expected contents.
func fold(m []kv, h uint64, x uint8) []kv {
	seen := false
	for i := range m {
		eq := m[i].h == h
		m[i].v = z.Ite(eq, m[i].v<<8|uint64(x), m[i].v)
		seen = z.Or(seen, eq)
	}
	// an entry that repeats an earlier key is never matched (hash 0 is never retained)
	return append(m, kv{z.Ite(seen, 0, h), uint64(x)})
}

// checkMap asserts that s retains exactly the keys of m that are wanted and below theta, once
// each, with their summaries.
func checkMap(s tuple.Sketch[*seqSum], m []kv, want []bool) {
	th := s.Theta64()
	found := make([]bool, len(m))
	dup, ok, sum := false, true, true
	cnt := 0
	for h, e := range s.All() {
		in := false
		for i := range m {
			eq := m[i].h == h
			w := true
			if want != nil {
				w = want[i]
			}
			in = z.Or(in, z.And(eq, w))
			dup = z.Or(dup, z.And(eq, found[i]))
			found[i] = z.Or(found[i], eq)
			sum = z.And(sum, z.Implies(z.And(eq, w), m[i].v == e.v))
		}
		ok = z.And(ok, z.And(in, z.And(h != 0, h < th)))
		cnt++
	}
	z.Assert(ok, "every retained key is of the set, nonzero and below theta")
	z.Assert(!dup, "no key is retained twice")
	z.Assert(sum, "every retained key carries its summary")
	for i := range m {
		w := z.And(m[i].h != 0, m[i].h < th)
		if want != nil {
			w = z.And(w, want[i])
		}
		z.Assert(z.Implies(w, found[i]), "every key of the set below theta is retained")
	}
	z.Assert(int(s.NumRetained()) == cnt, "NumRetained agrees with iteration")
	z.Observe(th)
	z.Observe(uint64(cnt))
}

func ascending(s tuple.Sketch[*seqSum]) bool {
	asc, prev := true, uint64(0)
	for h := range s.All() {
		asc = z.And(asc, prev < h)
		prev = h
	}
	return asc
}

// Update: pre fixed keys, then sym arbitrary ones, every key with an arbitrary value and every
// second fixed key twice.
//
// zz: C06 q Update 0 3 2 0 0
// zz: C06 q Update 20 2 2 1 0
// zz: C06 q Update 32 2 1 0 0
// zz: C06 q Update 59 2 2 0 0 | covers=estimation
// zz: C06 q Update 60 2 2 1 1 | covers=estimation
// zz: C06 q Update 87 1 2 0 0 | covers=estimation
// zz: C06 t Update 60 3 3 0 0 | covers=estimation budget=400
// zz: C06 t Update 0 4 3 1 0 | budget=400
func Update(pre, sym, npat, fn, trim int) {
	presetSeed()
	z.Merging(false)
	s := newSketch(5, fn)
	var m []kv
	for i := 0; i < pre; i++ {
		h, x := mix(uint64(i), 1)>>1, z.U8("x")
		feed(s, h, x)
		m = append(m, kv{h, uint64(x)})
		if i%2 == 1 {
			th := s.Theta64()
			x := z.U8("x")
			j := i / 2
			feed(s, m[j].h, x)
			if m[j].h < th {
				m[j].v = m[j].v<<8 | uint64(x)
			}
		}
	}
	for i := 0; i < sym; i++ {
		h, x := symHash(npat), z.U8("x")
		before := s.Theta64()
		feed(s, h, x)
		z.Assert(s.Theta64() <= before, "theta is monotone")
		m = fold(m, h, x)
		if i == 0 && pre < 30 {
			x := z.U8("x")
			feed(s, h, x)
			m = fold(m, h, x)
		}
	}
	if trim == 1 {
		s.Trim()
		z.Assert(s.NumRetained() <= 32, "at most k after Trim")
	}
	checkMap(s, m, nil)
	for _, ord := range []bool{false, true} {
		if ord && pre > 30 {
			continue // sorting is decided per pair
		}
		c, err := s.Compact(ord)
		must(err, "compact")
		z.Assert(c.Theta64() == s.Theta64() && c.IsEmpty() == s.IsEmpty() && c.NumRetained() == s.NumRetained(), "a compact form has the sketch's theta, count and emptiness")
		checkMap(c, m, nil)
		z.Assert(z.Or(!ord, ascending(c)), "an ordered compact form ascends")
	}
	if pre > 0 { // the predicate is decided per entry
		if s.IsEstimationMode() {
			z.Cover("estimation")
		}
		return
	}
	f, err := s.Filter(func(e *seqSum) bool { return e.v&1 == 1 })
	must(err, "filter")
	want := make([]bool, len(m))
	for i := range m {
		want[i] = m[i].v&1 == 1
	}
	z.Assert(f.Theta64() == s.Theta64(), "a filtered sketch keeps theta")
	checkMap(f, m, want)
}

// ---- operands of set operations

type input struct {
	s     tuple.Sketch[*seqSum]
	t     theta.Sketch
	m     []kv
	theta uint64
	empty bool
}

const (
	fUpdate  = 0
	fCompact = 1
	fOrdered = 2
	fDecU    = 3 // decoded, arbitrary theta
	fDecO    = 4
	fTheta   = 5 // from a theta sketch, one summary
	fEmpty   = 7
	fNone    = 8 // nothing retained, arbitrary theta, not empty
)

func enc(m []kv, th uint64, ordered bool) []byte {
	flags := byte(1<<1 | 1<<3)
	if ordered {
		flags |= 1 << 4
	}
	n := len(m)
	b := []byte{3, 3, 9, 1, 0, flags, seedHash & 0xff, seedHash >> 8, byte(n), byte(n >> 8), 0, 0, 0, 0, 0, 0}
	b = append(b, z.LE8(th)...)
	for _, e := range m {
		b = append(b, z.LE8(e.h)...)
		b = append(b, z.LE8(e.v)...)
	}
	return b
}

func readSeq(r io.Reader) (*seqSum, error) {
	var b [8]byte
	if _, err := io.ReadFull(r, b[:]); err != nil {
		return nil, err
	}
	v := uint64(0)
	for i := 7; i >= 0; i-- {
		v = v<<8 | uint64(b[i])
	}
	return &seqSum{v}, nil
}

func writeSeq(w io.Writer, s *seqSum) error {
	_, err := w.Write(z.LE8(s.v))
	return err
}

func sorted(m []kv) []kv {
	r := append([]kv{}, m...)
	for i := 1; i < len(r); i++ {
		for j := i; j > 0 && r[j].h < r[j-1].h; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

func mk(form, pre, salt, sym, npat int) input {
	in := input{theta: theta.MaxTheta}
	s := newSketch(6, 0)
	if form == fEmpty {
		in.s, in.empty = s, true
		return in
	}
	var m []kv
	for i := 0; i < pre; i++ {
		m = append(m, kv{mix(uint64(i), uint64(salt)) >> 1, uint64(z.U8("v"))})
	}
	for i := 0; i < sym; i++ {
		h := symHash(npat)
		z.Assume(h != 0)
		for _, g := range m {
			z.Assume(g.h != h)
		}
		m = append(m, kv{h, uint64(z.U8("v"))})
	}
	switch form {
	case fUpdate, fCompact, fOrdered:
		for _, e := range m {
			feed(s, e.h, uint8(e.v))
		}
		in.m, in.theta = m, s.Theta64()
		in.s = s
		if form != fUpdate {
			c, err := s.Compact(form == fOrdered)
			must(err, "compact")
			in.s = c
		}
		return in
	case fTheta:
		ts, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(6))
		must(err, "new")
		for i := range m {
			nextID++
			z.PresetHash(0, z.LE8(nextID), seed, m[i].h<<1, 0)
			must(ts.UpdateInt64(int64(nextID)), "theta update")
			m[i].v = m[0].v
		}
		c, err := tuple.NewCompactSketchFromThetaSketch[*seqSum](ts, &seqSum{m[0].v}, npat%2 == 0)
		must(err, "from theta")
		in.m, in.theta, in.s = m, ts.Theta64(), c
		return in
	case fNone:
		m = nil
	}
	in.theta = z.Nondet("theta", 63)
	z.Assume(in.theta > 0)
	if form == fNone {
		z.Assume(in.theta < theta.MaxTheta)
	}
	for _, e := range m {
		z.Assume(e.h < in.theta)
	}
	if form == fDecO {
		m = sorted(m)
	}
	c, err := tuple.Decode[*seqSum](enc(m, in.theta, form == fDecO), seed, readSeq)
	must(err, "decode")
	in.m, in.s = m, c
	return in
}

func minU(a, b uint64) uint64 { return z.Ite(a < b, a, b) }

// same asserts that an operand is as it was.
func (in input) same(what string) {
	ok, n := true, 0
	for h, e := range in.s.All() {
		f := false
		for _, x := range in.m {
			f = z.Or(f, z.And(x.h == h, x.v == e.v))
		}
		ok = z.And(ok, f)
		n++
	}
	z.Assert(z.And(ok, n == len(in.m)), what)
	z.Assert(in.s.Theta64() == in.theta, what)
	z.Assert(in.s.IsEmpty() == in.empty, what)
}

func checkHead(r *tuple.CompactSketch[*seqSum], ordered bool) {
	if r.IsOrdered() {
		z.Assert(ascending(r), "an ordered result ascends")
	} else {
		z.Assert(!ordered, "the result is ordered when asked for")
	}
	sh, err := r.SeedHash()
	must(err, "seed hash")
	z.Assert(sh == seedHash, "the result's seed hash is that of the seed")
}

// unionOf gives the keys of both operands with the summaries combined in order.
func unionOf(a, b []kv) []kv {
	r := append([]kv{}, a...)
	for _, e := range b {
		seen := false
		for i := range r {
			eq := r[i].h == e.h
			r[i].v = z.Ite(eq, cat(r[i].v, e.v), r[i].v)
			seen = z.Or(seen, eq)
		}
		r = append(r, kv{z.Ite(seen, 0, e.h), e.v})
	}
	return r
}

// Union of two operands in a union of size 32; mode 0 a policy, 1 a merge function, 2 an
// in-place merge function.
//
// zz: C06 q Union 0 0 2 3 0 1 1 0
// zz: C06 q Union 3 0 1 4 0 2 0 1
// zz: C06 q Union 4 0 1 3 0 1 0 2
// zz: C06 q Union 5 0 1 4 0 2 1 0
// zz: C06 q Union 7 0 0 4 0 2 1 0
// zz: C06 q Union 8 0 0 3 0 2 0 1
// zz: C06 q Union 2 33 0 4 0 1 1 0 | covers=trimmed
// zz: C06 q Union 4 25 0 0 25 1 1 0 | covers=trimmed
// zz: C06 q Union 2 40 0 1 41 1 0 2 | covers=rebuilt
// zz: C06 t Union 2 40 1 4 25 1 0 0 | budget=400 covers=rebuilt
// zz: C06 t Union 3 0 2 4 0 2 0 0 | budget=400
func Union(formA, preA, symA, formB, preB, symB, ordered, mode int) {
	presetSeed()
	z.Merging(false)
	var u *tuple.Union[*seqSum]
	var err error
	switch mode {
	case 0:
		u, err = tuple.NewUnion[*seqSum](catPolicy{}, tuple.WithUnionLgK(5))
	case 1:
		u, err = tuple.NewUnionWithSummaryMergeFunc[*seqSum](mergeFunc, tuple.WithUnionLgK(5))
	default:
		u, err = tuple.NewUnionWithSummaryMergeFunc[*seqSum](mergeInPlace, tuple.WithUnionLgK(5))
	}
	must(err, "new union")
	a := mk(formA, preA, 0, symA, 2)
	b := mk(formB, preB, 0, symB, 2)
	must(u.Update(a.s), "union update")
	must(u.Update(b.s), "union update")
	a.same("a union leaves its first operand unmodified")
	b.same("a union leaves its second operand unmodified")
	r, err := u.Result(ordered == 1)
	must(err, "result")
	uni := unionOf(a.m, b.m)
	checkMap(r, uni, nil)
	checkHead(r, ordered == 1)
	m := minU(a.theta, b.theta)
	z.Assert(r.Theta64() <= m, "theta at most every input's theta")
	z.Assert(z.Implies(r.Theta64() < m, r.NumRetained() == 32), "theta only drops below the inputs' when k keys stay")
	z.Assert(r.IsEmpty() == (a.empty && b.empty), "empty exactly when all inputs were")
	// the result stands on its own
	before := input{s: r, theta: r.Theta64(), empty: r.IsEmpty()}
	for h, e := range r.All() {
		before.m = append(before.m, kv{h, e.v})
	}
	must(u.Update(a.s), "union update")
	before.same("a union result does not follow the union")
	a.same("a union leaves its operand unmodified")
	u.Reset()
	before.same("a union result does not follow the union")
	a.same("resetting a union leaves its operands unmodified")
	if preA+preB > 32 {
		z.Cover("trimmed")
	}
	if preA+preB > 64 {
		z.Cover("rebuilt")
	}
}

// Inter intersects A, B and A again.
//
// zz: C06 q Inter 0 0 2 3 0 2 0 0
// zz: C06 q Inter 3 0 2 4 0 2 1 1
// zz: C06 q Inter 4 0 2 4 0 2 0 2
// zz: C06 q Inter 5 0 2 3 0 2 1 0
// zz: C06 q Inter 7 0 0 4 0 1 1 0
// zz: C06 q Inter 8 0 0 4 0 1 1 0
// zz: C06 q Inter 3 20 1 4 20 1 0 0 | covers=match
// zz: C06 q Inter 4 16 1 0 16 1 1 1 | covers=match
// zz: C06 t Inter 4 33 1 3 33 2 1 0 | covers=match
// zz: C06 t Inter 4 0 3 3 0 3 1 0 | budget=400
func Inter(formA, preA, symA, formB, preB, symB, ordered, mode int) {
	presetSeed()
	z.Merging(false)
	a := mk(formA, preA, 0, symA, 2)
	b := mk(formB, preB, 0, symB, 2)
	var x *tuple.Intersection[*seqSum]
	switch mode {
	case 0:
		x = tuple.NewIntersection[*seqSum](catPolicy{})
	case 1:
		x = tuple.NewIntersectionWithSummaryMergeFunc[*seqSum](mergeFunc)
	default:
		x = tuple.NewIntersectionWithSummaryMergeFunc[*seqSum](mergeInPlace)
	}
	_, err := x.Result(true)
	z.Assert(!x.HasResult() && err != nil, "no result before an update")
	must(x.Update(a.s), "update")
	must(x.Update(b.s), "update")
	a.same("an intersection leaves its first operand unmodified")
	b.same("an intersection leaves its second operand unmodified")
	r, err := x.Result(ordered == 1)
	must(err, "result")
	m := minU(a.theta, b.theta)
	exp := append([]kv{}, a.m...)
	want := make([]bool, len(exp))
	none := true
	for i := range exp {
		for _, e := range b.m {
			eq := exp[i].h == e.h
			exp[i].v = z.Ite(eq, cat(exp[i].v, e.v), exp[i].v)
			want[i] = z.Or(want[i], eq)
		}
		none = z.And(none, !z.And(want[i], exp[i].h < m))
	}
	checkMap(r, exp, want)
	checkHead(r, ordered == 1)
	if a.empty || b.empty {
		z.Assert(r.IsEmpty(), "intersecting an empty set gives an empty set")
	} else {
		z.Assert(r.Theta64() == m, "theta is the minimum of the inputs'")
		z.Assert(r.IsEmpty() == z.And(none, m == theta.MaxTheta), "empty exactly when nothing can be in the set")
	}
	before := input{s: r, theta: r.Theta64(), empty: r.IsEmpty()}
	for h, e := range r.All() {
		before.m = append(before.m, kv{h, e.v})
	}
	must(x.Update(a.s), "update")
	before.same("an intersection result does not follow the intersection")
	a.same("an intersection leaves its operand unmodified")
	b.same("an intersection leaves its operand unmodified")
	if r.NumRetained() > 0 {
		z.Cover("match")
	}
}

// AnotB subtracts; with asTheta the right operand is a theta sketch.
//
// zz: C06 q AnotB 0 0 2 3 0 2 0 0
// zz: C06 q AnotB 3 0 2 4 0 2 1 0
// zz: C06 q AnotB 4 0 2 4 0 2 0 0
// zz: C06 q AnotB 4 0 2 0 0 2 1 0
// zz: C06 q AnotB 3 0 2 0 0 2 1 1
// zz: C06 q AnotB 4 0 2 2 0 2 0 1
// zz: C06 q AnotB 5 0 2 4 0 2 1 0
// zz: C06 q AnotB 7 0 0 4 0 1 1 0
// zz: C06 q AnotB 3 0 2 8 0 0 1 0
// zz: C06 q AnotB 3 0 2 7 0 0 1 0
// zz: C06 q AnotB 3 20 1 4 20 1 0 0 | covers=match
// zz: C06 q AnotB 4 16 1 1 16 1 1 1 | covers=match
// zz: C06 t AnotB 3 33 2 4 31 2 1 0 | covers=match
func AnotB(formA, preA, symA, formB, preB, symB, ordered, asTheta int) {
	presetSeed()
	z.Merging(false)
	a := mk(formA, preA, 0, symA, 2)
	var b input
	var r *tuple.CompactSketch[*seqSum]
	var err error
	if asTheta == 1 {
		ts, e := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(6))
		must(e, "new")
		for i := 0; i < preB+symB; i++ {
			h := uint64(0)
			if i < preB {
				h = mix(uint64(i+1), 0) >> 1
			} else {
				h = symHash(2)
				z.Assume(h != 0)
			}
			nextID++
			z.PresetHash(0, z.LE8(nextID), seed, h<<1, 0)
			_ = ts.UpdateInt64(int64(nextID))
			b.m = append(b.m, kv{h: h})
		}
		b.theta = ts.Theta64()
		b.t = ts
		if formB != fUpdate {
			b.t = ts.Compact(formB == fOrdered)
		}
		r, err = tuple.TupleANotThetaB[*seqSum](a.s, b.t, seed, ordered == 1)
	} else {
		b = mk(formB, preB, 0, symB, 2)
		r, err = tuple.ANotB[*seqSum](a.s, b.s, seed, ordered == 1)
		b.same("A-not-B leaves B unmodified")
	}
	must(err, "a not b")
	a.same("A-not-B leaves A unmodified")
	m := minU(a.theta, b.theta)
	want := make([]bool, len(a.m))
	none := true
	for i := range a.m {
		want[i] = true
		for _, e := range b.m {
			want[i] = z.And(want[i], a.m[i].h != e.h)
		}
		none = z.And(none, !z.And(want[i], a.m[i].h < m))
	}
	checkMap(r, a.m, want)
	checkHead(r, ordered == 1)
	if a.empty {
		z.Assert(r.IsEmpty(), "empty minus anything is empty")
	} else {
		z.Assert(r.Theta64() == m, "theta is the minimum of the inputs'")
		z.Assert(r.IsEmpty() == z.And(none, m == theta.MaxTheta), "empty exactly when nothing can be in the set")
	}
	// the result shares no summary with A
	for _, e := range r.All() {
		e.v = e.v + 1
	}
	a.same("an A-not-B result shares nothing with A")
	if r.NumRetained() > 0 {
		z.Cover("match")
	}
}

// Refuse: operands of another seed are refused.
//
// zz: C06 q Refuse
func Refuse() {
	presetSeed()
	z.Merging(false)
	sh := z.U16("seedhash")
	b := enc([]kv{{77, 1}}, theta.MaxTheta-1, true)
	b[6], b[7] = byte(sh), byte(sh>>8)
	c, err := tuple.Decode[*seqSum](b, seed, readSeq)
	z.Assert((err == nil) == (sh == seedHash), "decoding accepts exactly the seed's hash")
	b[6], b[7] = 0x22, 0x22
	c, err = tuple.Decode[*seqSum](b, seed+1, readSeq)
	must(err, "decode under the other seed")
	good, err := tuple.Decode[*seqSum](enc([]kv{{78, 1}}, theta.MaxTheta-1, true), seed, readSeq)
	must(err, "decode")
	u, err := tuple.NewUnion[*seqSum](catPolicy{}, tuple.WithUnionLgK(5))
	must(err, "new")
	z.Assert(u.Update(c) != nil, "union refuses another seed hash")
	z.Assert(tuple.NewIntersection[*seqSum](catPolicy{}).Update(c) != nil, "intersection refuses another seed hash")
	_, err = tuple.ANotB[*seqSum](good, c, seed, true)
	z.Assert(err != nil, "A-not-B refuses another seed hash")
	_, err = tuple.ANotB[*seqSum](c, good, seed, true)
	z.Assert(err != nil, "A-not-B refuses another seed hash")
}

// Reset: after a reset the sketch behaves like a new one.
//
// zz: C29 q Reset 3 2 0
// zz: C29 q Reset 61 1 0
// zz: C29 q Reset 40 1 1
func Reset(pre, sym, fn int) {
	presetSeed()
	z.Merging(false)
	s := newSketch(5, fn)
	for i := 0; i < pre; i++ {
		feed(s, mix(uint64(i), 1)>>1, z.U8("x"))
	}
	old, err := s.Compact(false)
	must(err, "compact")
	keep := input{s: old, theta: old.Theta64(), empty: old.IsEmpty()}
	for h, e := range old.All() {
		keep.m = append(keep.m, kv{h, e.v})
	}
	s.Reset()
	z.Assert(s.IsEmpty() && s.NumRetained() == 0 && s.Theta64() == theta.MaxTheta, "a reset sketch is empty")
	var m []kv
	for i := 0; i < pre/2; i++ {
		h, x := mix(uint64(i), 1)>>1, z.U8("x")
		feed(s, h, x)
		m = append(m, kv{h, uint64(x)})
	}
	for i := 0; i < sym; i++ {
		h, x := symHash(2), z.U8("x")
		feed(s, h, x)
		m = fold(m, h, x)
	}
	checkMap(s, m, nil)
	keep.same("a compact form does not follow its source")
}

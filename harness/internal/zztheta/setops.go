package zztheta

import (
	z "github.com/apache/datasketches-go/internal/zzsym"
	"github.com/apache/datasketches-go/theta"
)

const seedHash = 0x1357 // fixed by presetSeed

func presetSeed() {
	z.HashFree = true
	z.PresetHash(0, z.LE8(seed), 0, 0x24680000_00000000|seedHash, 7)
	z.PresetHash(0, z.LE8(seed+1), 0, 0x24680000_00000000|0x2222, 7)
}

// input is one operand together with the set it stands for.
type input struct {
	s     theta.Sketch
	h     []uint64
	theta uint64
	empty bool
}

func v3(hashes []uint64, th uint64, ordered bool, sh uint16) []byte {
	flags := byte(1<<1 | 1<<3)
	if ordered {
		flags |= 1 << 4
	}
	b := []byte{3, 3, 3, 0, 0, flags, byte(sh), byte(sh >> 8)}
	n := len(hashes)
	b = append(b, byte(n), byte(n>>8), byte(n>>16), byte(n>>24), 0, 0, 0, 0)
	b = append(b, z.LE8(th)...)
	for _, h := range hashes {
		b = append(b, z.LE8(h)...)
	}
	return b
}

func sorted(h []uint64) []uint64 {
	r := append([]uint64{}, h...)
	for i := 1; i < len(r); i++ {
		for j := i; j > 0 && r[j] < r[j-1]; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

// Forms of an operand.
const (
	fUpdate  = 0 // update sketch
	fCompact = 1 // its unordered compact form
	fOrdered = 2 // its ordered compact form
	fDecU    = 3 // decoded from unordered bytes with arbitrary theta
	fDecO    = 4 // decoded from ordered bytes with arbitrary theta
	fWrapO   = 5 // wrapped ordered bytes with arbitrary theta
	fWrapU   = 6
	fEmpty   = 7  // a new update sketch
	fNone    = 8  // arbitrary theta, nothing retained, not empty
	fEmptyC  = 9  // a compact empty sketch
	fV4      = 10 // decoded from the compressed form
	fWrap4   = 11
)

var nextID uint64 = 5000

// mk builds an operand of the given form holding pre fixed and sym arbitrary hashes.
// With bound>0 the fixed hashes are below bound.
func mk(form, pre, salt, sym, npat int) input {
	var in input
	in.theta = theta.MaxTheta
	s, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(6))
	must(err, "new")
	switch form {
	case fEmpty:
		in.s, in.empty = s, true
		return in
	case fEmptyC:
		in.s, in.empty = s.Compact(true), true
		return in
	}
	var hs []uint64
	for i := 0; i < pre; i++ {
		hs = append(hs, mix(uint64(i), uint64(salt))>>1)
	}
	for i := 0; i < sym; i++ {
		h := symHash(npat)
		z.Assume(h != 0)
		for _, g := range hs {
			z.Assume(g != h)
		}
		hs = append(hs, h)
	}
	in.h = hs
	switch form {
	case fUpdate, fCompact, fOrdered:
		for _, h := range hs {
			nextID++
			z.Assert(okErr(upd(s, nextID, h)), "update")
		}
		z.Assume(len(hs) > 0)
		in.theta = s.Theta64()
		switch form {
		case fUpdate:
			in.s = s
		case fCompact:
			in.s = s.Compact(false)
		case fOrdered:
			in.s = s.Compact(true)
		}
		return in
	}
	if form == fNone {
		in.h = nil
	}
	in.theta = z.Nondet("theta", 63)
	z.Assume(in.theta > 0)
	if form == fNone {
		z.Assume(in.theta < theta.MaxTheta) // otherwise it would be an empty set
	}
	for _, h := range in.h {
		z.Assume(h < in.theta)
	}
	ordered := form == fDecO || form == fWrapO || form == fV4 || form == fWrap4
	if ordered {
		in.h = sorted(in.h)
	}
	b := v3(in.h, in.theta, ordered, seedHash)
	if form == fWrapO || form == fWrapU {
		w, err := theta.WrapCompactSketch(b, seed)
		must(err, "wrap")
		in.s = w
		return in
	}
	c, err := theta.Decode(b, seed)
	must(err, "decode")
	in.s = c
	return in
}

// checkResult asserts that r retains exactly the hashes h of the universe with want(i) and
// h < r.theta, once each.
func checkResult(r *theta.CompactSketch, universe []uint64, want []bool, ordered bool) {
	th := r.Theta64()
	found := make([]bool, len(universe))
	dup, ok, asc := false, true, true
	prev := uint64(0)
	cnt := 0
	for e := range r.All() {
		in := false
		for i, h := range universe {
			eq := h == e
			in = z.Or(in, z.And(eq, want[i]))
			dup = z.Or(dup, z.And(eq, found[i]))
			found[i] = z.Or(found[i], eq)
		}
		ok = z.And(ok, z.And(in, e < th))
		asc = z.And(asc, prev < e)
		prev = e
		cnt++
	}
	z.Assert(ok, "the result retains only hashes of the set, below its theta")
	z.Assert(!dup, "the result retains no hash twice")
	for i, h := range universe {
		z.Assert(z.Implies(z.And(want[i], h < th), found[i]), "every hash of the set below theta is retained")
	}
	z.Assert(int(r.NumRetained()) == cnt, "NumRetained agrees with iteration")
	if r.IsOrdered() {
		z.Assert(asc, "an ordered result ascends")
	} else {
		z.Assert(!ordered, "the result is ordered when asked for")
	}
	sh, err := r.SeedHash()
	must(err, "seed hash")
	z.Assert(sh == seedHash, "the result's seed hash is that of the seed")
	z.Observe(th)
	z.Observe(uint64(r.NumRetained()))
	z.Observe(z.B2U(r.IsEmpty()))
}

func minU(a, b uint64) uint64 { return z.Ite(a < b, a, b) }

// universeOf merges operand sets, marking repeats as unwanted so that each hash is listed once.
func universeOf(ins ...input) (u []uint64, member [][]bool, uniq []bool) {
	for _, in := range ins {
		u = append(u, in.h...)
	}
	for i, h := range u {
		f := true
		for j := 0; j < i; j++ {
			f = z.And(f, u[j] != h)
		}
		uniq = append(uniq, f)
	}
	for _, in := range ins {
		m := make([]bool, len(u))
		for i, h := range u {
			for _, g := range in.h {
				m[i] = z.Or(m[i], g == h)
			}
		}
		member = append(member, m)
	}
	return
}

// Union feeds two operands (and an optional third) to a union of size 32.
//
// zz: C02 q Union 0 0 2 3 0 1 8 1
// zz: C02 q Union 3 0 1 4 0 1 8 1
// zz: C02 q Union 4 0 2 5 0 1 9 0
// zz: C02 q Union 4 0 1 3 0 2 7 1
// zz: C02 q Union 6 0 2 8 0 0 4 1
// zz: C02 q Union 7 0 0 9 0 0 7 1
// zz: C02 q Union 9 0 0 3 0 1 8 0
// zz: C02 q Union 8 0 0 4 0 2 9 0
// zz: C02 q Union 2 33 1 0 0 1 9 1 | covers=trimmed
// zz: C02 q Union 2 33 0 4 0 1 9 1
// zz: C02 t Union 2 33 1 4 0 1 9 1 | budget=400
// zz: C02 q Union 4 25 0 0 25 1 9 1 | covers=trimmed
// zz: C02 q Union 2 40 1 1 41 1 9 0 | covers=rebuilt
// zz: C02 t Union 3 0 2 4 0 2 8 1 | budget=200
// zz: C02 t Union 4 25 1 0 25 1 9 1 | covers=trimmed
// zz: C02 t Union 4 61 1 3 41 1 9 0 | covers=rebuilt
// zz: C02 t Union 0 62 1 2 65 2 3 0 | covers=rebuilt
func Union(formA, preA, symA, formB, preB, symB, formC, ordered int) {
	presetSeed()
	z.Merging(false)
	u, err := theta.NewUnion(theta.WithUnionLgK(5))
	must(err, "new union")
	a := mk(formA, preA, 0, symA, 2)
	b := mk(formB, preB, 1, symB, 2)
	c := mk(formC, 0, 0, 0, 2)
	must(u.Update(a.s), "union update")
	if z.Choose("mid", 2) == 1 {
		r, err := u.Result(false)
		must(err, "mid result")
		w := make([]bool, len(a.h))
		for i := range w {
			w[i] = true
		}
		checkResult(r, a.h, w, false)
	}
	must(u.Update(b.s), "union update")
	must(u.Update(c.s), "union update")
	r, err := u.Result(ordered == 1)
	must(err, "result")
	uni, _, uniq := universeOf(a, b, c)
	checkResult(r, uni, uniq, ordered == 1)
	th := r.Theta64()
	m := minU(minU(a.theta, b.theta), c.theta)
	z.Assert(th <= m, "theta at most every input's theta")
	z.Assert(r.NumRetained() <= 32 || th == theta.MaxTheta, "at most k hashes outside exact mode")
	z.Assert(z.Implies(th < m, r.NumRetained() == 32), "theta only drops below the inputs' when k hashes stay")
	z.Assert(r.IsEmpty() == (a.empty && b.empty && c.empty), "empty exactly when all inputs were")
	if preA+preB > 32 {
		z.Cover("trimmed")
	}
	if preA+preB > 64 {
		z.Cover("rebuilt")
	}
}

// Inter intersects two operands and a third.
//
// zz: C03 q Inter 0 0 2 3 0 2 0
// zz: C03 q Inter 3 0 2 4 0 2 1
// zz: C03 q Inter 4 0 2 4 0 2 0
// zz: C03 q Inter 5 0 2 6 0 2 1
// zz: C03 q Inter 8 0 0 3 0 2 0
// zz: C03 q Inter 7 0 0 4 0 1 1
// zz: C03 q Inter 4 0 1 9 0 0 0
// zz: C03 q Inter 3 20 1 4 20 1 0 | covers=match
// zz: C03 q Inter 4 16 1 0 16 1 1 | covers=match
// zz: C03 t Inter 4 0 3 3 0 3 1
// zz: C03 t Inter 3 33 2 4 31 2 1 | covers=match
func Inter(formA, preA, symA, formB, preB, symB, ordered int) {
	presetSeed()
	z.Merging(false)
	a := mk(formA, preA, 0, symA, 2)
	b := mk(formB, preB, 0, symB, 2)
	x := theta.NewIntersection()
	z.Assert(!x.HasResult(), "no result before an update")
	_, err := x.Result(true)
	z.Assert(err != nil, "no result before an update")
	must(x.Update(a.s), "update")
	z.Assert(x.HasResult(), "a result after an update")
	if z.Choose("mid", 2) == 1 {
		r, err := x.Result(false)
		must(err, "mid result")
		w := make([]bool, len(a.h))
		for i := range w {
			w[i] = true
		}
		checkResult(r, a.h, w, false)
		z.Assert(r.Theta64() == a.theta, "intersection of one input has its theta")
		z.Assert(r.IsEmpty() == a.empty, "intersection of one input has its emptiness")
	}
	must(x.Update(b.s), "update")
	twice := z.Choose("again", 2) == 1
	if twice {
		must(x.Update(a.s), "update")
	}
	r, err := x.Result(ordered == 1)
	must(err, "result")
	uni, mem, uniq := universeOf(a, b)
	want := make([]bool, len(uni))
	none := true
	m := minU(a.theta, b.theta)
	for i := range uni {
		want[i] = z.And(uniq[i], z.And(mem[0][i], mem[1][i]))
		none = z.And(none, !z.And(want[i], uni[i] < m))
	}
	checkResult(r, uni, want, ordered == 1)
	if a.empty || b.empty {
		z.Assert(r.IsEmpty(), "intersecting an empty set gives an empty set")
		z.Assert(r.NumRetained() == 0, "intersecting an empty set gives an empty set")
	} else {
		z.Assert(r.Theta64() == m, "theta is the minimum of the inputs'")
		z.Assert(r.IsEmpty() == z.And(none, m == theta.MaxTheta), "empty exactly when nothing can be in the set")
	}
	if r.NumRetained() > 0 {
		z.Cover("match")
	}
}

// AnotB subtracts.
//
// zz: C03 q AnotB 0 0 2 3 0 2 0
// zz: C03 q AnotB 3 0 2 4 0 2 1
// zz: C03 q AnotB 4 0 2 4 0 2 0
// zz: C03 q AnotB 4 0 2 5 0 2 1
// zz: C03 q AnotB 4 0 2 6 0 2 1
// zz: C03 q AnotB 2 0 2 4 0 2 1
// zz: C03 q AnotB 8 0 0 3 0 2 0
// zz: C03 q AnotB 3 0 2 8 0 0 1
// zz: C03 q AnotB 7 0 0 4 0 1 1
// zz: C03 q AnotB 3 0 2 9 0 0 0
// zz: C03 q AnotB 8 0 0 9 0 0 1
// zz: C03 q AnotB 3 20 1 4 20 1 0 | covers=match
// zz: C03 q AnotB 4 16 1 0 16 1 1 | covers=match
// zz: C03 t AnotB 4 0 3 3 0 3 1
// zz: C03 t AnotB 3 33 2 4 31 2 1 | covers=match
func AnotB(formA, preA, symA, formB, preB, symB, ordered int) {
	presetSeed()
	z.Merging(false)
	a := mk(formA, preA, 0, symA, 2)
	b := mk(formB, preB, 0, symB, 2)
	r, err := theta.ANotB(a.s, b.s, seed, ordered == 1)
	must(err, "a not b")
	uni, mem, uniq := universeOf(a, b)
	want := make([]bool, len(uni))
	none := true
	m := minU(a.theta, b.theta)
	for i := range uni {
		want[i] = z.And(uniq[i], z.And(mem[0][i], !mem[1][i]))
		none = z.And(none, !z.And(want[i], uni[i] < m))
	}
	checkResult(r, uni, want, ordered == 1)
	if a.empty {
		z.Assert(r.Theta64() == a.theta, "theta of an empty A")
	} else {
		z.Assert(r.Theta64() == m, "theta is the minimum of the inputs'")
	}
	z.Assert(r.IsEmpty() == z.Or(a.empty, z.And(none, m == theta.MaxTheta)), "empty exactly when A is empty or nothing can be in the set")
	if r.NumRetained() > 0 {
		z.Cover("match")
	}
}

// SeedMismatch: operands built under another seed are refused.
//
// zz: C03 q SeedMismatch 3
// zz: C03 q SeedMismatch 4
// zz: C02 q SeedMismatch 3
func SeedMismatch(form int) {
	presetSeed()
	z.Merging(false)
	sh := z.U16("seedhash")
	b := v3([]uint64{77}, theta.MaxTheta-1, form == fDecO, sh)
	c, err := theta.Decode(b, seed)
	z.Assert((err == nil) == (sh == seedHash), "decoding accepts exactly the seed's hash")
	if err == nil {
		return
	}
	_, err = theta.WrapCompactSketch(b, seed)
	z.Assert(err != nil, "wrapping refuses another seed hash")
	good, err := theta.Decode(v3([]uint64{78}, theta.MaxTheta-1, true, seedHash), seed)
	must(err, "decode")
	alien := z.U16("alien")
	_ = alien
	c, err = theta.Decode(v3([]uint64{77}, theta.MaxTheta-1, true, 0x2222), seed+1)
	must(err, "decode under the other seed")
	u, err := theta.NewUnion(theta.WithUnionLgK(5))
	must(err, "new")
	z.Assert(u.Update(c) != nil, "union refuses another seed hash")
	x := theta.NewIntersection()
	z.Assert(x.Update(c) != nil, "intersection refuses another seed hash")
	_, err = theta.ANotB(good, c, seed, true)
	z.Assert(err != nil, "A-not-B refuses another seed hash")
	_, err = theta.ANotB(c, good, seed, true)
	z.Assert(err != nil, "A-not-B refuses another seed hash")
}

package zzcpc

import (
	"github.com/apache/datasketches-go/cpc"
	z "github.com/apache/datasketches-go/internal/zzsym"
)

func newUnion(lgK int) *cpc.CpcUnion {
	u, err := cpc.NewCpcUnionSketch(lgK, seed)
	must(err, "new union")
	return &u
}

func (m *model) rowsAre(b []uint64, what string) {
	z.Assert(len(b) == len(m.rows), what+" there is a row for each of k")
	ok := true
	for i := range m.rows {
		ok = z.And(ok, b[i] == m.rows[i])
	}
	z.Assert(ok, what+" the coupons are those of all inputs")
}

// result: a union's result is the sketch of the model.
func (m *model) result(u *cpc.CpcUnion, what string) *cpc.CpcSketch {
	b, err := u.GetBitMatrix()
	must(err, "matrix")
	m.rowsAre(b, what)
	s, err := u.GetResult()
	must(err, "result")
	z.Assert(s.GetLgK() == m.lgK, what+" the result has the smallest size")
	m.rowsAre(matrix(s), what+" in the result")
	return s
}

// sizes of inputs: empty, sparse, hybrid, pinned and sliding.
func amount(kind, lgK int) int {
	k := 1 << lgK
	switch kind {
	case 0:
		return 0
	case 1:
		return max(1, k*3/32-1)
	case 2:
		return k * 3 / 10
	case 3:
		return k * 2
	}
	return k * 4
}

// Sets: three inputs of any kinds and sizes in turn, then one of them again.
//
// zz: C13 q Sets 4 0 5 | budget=60 maxsteps=100000000
// zz: C13 q Sets 5 0 5 | budget=60 maxsteps=100000000
// zz: C13 q Sets 6 0 5 | budget=60 maxsteps=100000000
// zz: C13 q Sets 6 3 6 | budget=60 maxsteps=100000000
// zz: C13 q Sets 5 1 4 | budget=60 maxsteps=100000000
// zz: C13 t Sets 7 2 6 | budget=300 maxsteps=100000000
// zz: C13 t Sets 6 4 1 | budget=300 maxsteps=100000000
// zz: C13 t Sets 5 5 3 | budget=300 maxsteps=100000000
func Sets(lgU, shapeA, shapeB int) {
	z.Merging(false)
	f := &feeder{}
	u := newUnion(lgU)
	m := newModel(lgU)
	for i := 0; i < 3; i++ {
		lgK := 4 + z.Choose("lgK", 3)
		kind := z.Choose("kind", 5)
		if i > 0 && kind == 0 {
			z.Assume(false)
		}
		shape := shapeA
		if i&1 == 1 {
			shape = shapeB
		}
		s, a := filled(f, lgK, shape, amount(kind, lgK)+i)
		b := image(s)
		must(u.Update(s), "union")
		z.Assert(same(image(s), b), "the input is left as it was")
		if i == 0 && kind == 0 {
			r, err := u.GetResult()
			must(err, "result")
			z.Assert(r.GetLgK() == lgU && r.GetEstimate() == 0, "an empty input changes nothing")
			continue
		}
		if lgK < m.lgK {
			m = m.fold(lgK)
		}
		for j, x := range a.fold(m.lgK).rows {
			m.rows[j] |= x
		}
		r := m.result(u, "so far,")
		z.Assert(coupons(image(r)) == m.count(), "the count of the result is exact")
		m.bounds(r, "the result:")
		// the result is apart from the union and goes on as a sketch
		c := m.clone()
		f.add(r, c, 3, 40)
		f.add(r, c, 5, 2)
		c.check(r, "the result updated:")
		f.add(s, a, 1, 33)
		m.result(u, "later,")
	}
}

// Any: a sketch of n coupons of a shape and an item of any hash, into a union that holds m
// coupons of another.
//
// zz: C13 q Mixed 4 0 1 4 0 5 | budget=100
// zz: C13 q Mixed 4 0 53 4 5 9 | budget=100
// zz: C13 q Mixed 5 5 4 4 0 30 | budget=100
// zz: C13 q Mixed 4 1 30 5 2 1 | budget=100
// zz: C13 t Mixed 5 1 20 4 1 70 | budget=300
// zz: C13 t Mixed 4 1 100 6 1 100 | budget=300
// zz: C13 t Mixed 4 1 100 6 1 0 | budget=300
// zz: C13 t Mixed 6 0 5 4 0 1 | budget=300
func Mixed(lgA, shapeA, nA, lgU, shapeB, nB int) {
	f := &feeder{}
	t, mb := filled(f, lgU, shapeB, nB)
	s, ma := filled(f, lgA, shapeA, nA)
	h0, h1 := z.U64("h0"), z.U64("h1")
	row, col := h0&(1<<lgA-1), lead(h1)
	f.put(s, h0, h1)
	for i := range ma.rows {
		ma.rows[i] |= z.B2U(row == uint64(i)) << col
	}
	u := newUnion(lgU)
	first := z.Choose("first", 2)
	if first == 0 {
		must(u.Update(t), "union")
	}
	must(u.Update(s), "union")
	if first == 1 {
		must(u.Update(t), "union")
	}
	m := ma
	if lgU < lgA {
		m = ma.fold(lgU)
	}
	if nB > 0 || lgA >= lgU {
		for j, x := range mb.fold(m.lgK).rows {
			m.rows[j] |= x
		}
	}
	b, err := u.GetBitMatrix()
	must(err, "matrix")
	m.rowsAre(b, "union of an arbitrary coupon,")
}

// Apart: a copy, a sketch read back and a union's result are apart from their source.
//
// zz: C29 q Apart 4 0 0 | budget=30
// zz: C29 q Apart 4 0 3 | budget=30
// zz: C29 q Apart 4 0 1 | budget=30
// zz: C29 q Apart 6 3 5 | budget=30
// zz: C29 q Apart 4 5 60 | budget=30
// zz: C29 q Apart 4 1 180 | budget=30
func Apart(lgK, shape, n int) {
	z.Merging(false)
	f := &feeder{}
	s, m := filled(f, lgK, shape, n)
	var t *cpc.CpcSketch
	switch z.Choose("how", 4) {
	case 3:
		// a union goes on without its source, and the source without the union
		u := newUnion(lgK + z.Choose("larger", 2))
		b := image(s)
		must(u.Update(s), "union")
		o, mo := filled(f, lgK, 4, [4]int{1, 2, 20, 80}[z.Choose("more", 4)])
		must(u.Update(o), "union")
		z.Assert(same(image(s), b), "the source of a union is left as it was")
		m.check(s, "the source of a union:")
		r, err := u.GetResult()
		must(err, "result")
		for row := range mo.rows {
			f.add(s, m, row, 7)
			f.add(o, mo, row, 9)
		}
		q, err := u.GetResult()
		must(err, "result")
		z.Assert(same(image(q), image(r)), "a union is left as it was when its sources are updated")
		m.check(s, "the source of a union:")
		mo.check(o, "the second source of a union:")
		return
	case 0:
		var err error
		t, err = s.Copy()
		must(err, "copy")
		alike(s, t, "copied,")
		z.Assert(same(image(s), image(t)), "copied, the images are the same")
	case 1:
		b := image(s)
		t = parse(b)
		for i := range b {
			b[i] ^= 0xff
		}
	case 2:
		u := newUnion(lgK)
		must(u.Update(s), "union")
		var err error
		t, err = u.GetResult()
		must(err, "result")
	}
	a, c := s, t
	if z.Choose("swap", 2) == 1 {
		a, c = t, s
	}
	b, e := image(c), c.GetEstimate()
	m2 := m.clone()
	f.add(a, m2, z.Choose("row", 4)*5, z.Choose("col", 64))
	for i := 0; i < 20; i++ {
		f.add(a, m2, i&(1<<lgK-1), (i*i+3)&63)
	}
	m2.check(a, "the one updated:")
	m.check(c, "the other:")
	z.Assert(same(image(c), b) && c.GetEstimate() == e, "the other is left as it was")
	// and the other one still works
	f.add(c, m, 9, 9)
	f.add(c, m, 11, 0)
	m.check(c, "the other updated:")
	m2.check(a, "the one updated:")
}

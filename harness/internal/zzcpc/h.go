// Package zzcpc: CPC sketches and unions.
package zzcpc

import (
	"math"

	"github.com/apache/datasketches-go/cpc"
	z "github.com/apache/datasketches-go/internal/zzsym"
)

const seed = 9001

func must(err error, what string) {
	if err != nil {
		z.Assert(false, what+" fails: "+err.Error())
	}
}

// mix is a fixed scrambler used for concrete items.
func mix(i, salt uint64) uint64 {
	x := (i+1)*0x9E3779B97F4A7C15 + salt*0xD1B54A32D192ED03
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	return x
}

// model is a CPC sketch as the set of its coupons, a row of 64 columns for each of k rows.
type model struct {
	lgK  int
	rows []uint64
}

func newModel(lgK int) *model { return &model{lgK, make([]uint64, 1<<lgK)} }

func (m *model) count() uint64 {
	n := uint64(0)
	for _, r := range m.rows {
		n += ones(r)
	}
	return n
}

func ones(r uint64) uint64 {
	r -= r >> 1 & 0x5555555555555555
	r = r&0x3333333333333333 + r>>2&0x3333333333333333
	r = (r + r>>4) & 0x0f0f0f0f0f0f0f0f
	return r * 0x0101010101010101 >> 56
}

func (m *model) has(row, col int) bool { return m.rows[row]>>uint(col)&1 == 1 }

// fold is the model at a smaller k.
func (m *model) fold(lgK int) *model {
	f := newModel(lgK)
	for i, r := range m.rows {
		f.rows[i&(1<<lgK-1)] |= r
	}
	return f
}

func (m *model) clone() *model {
	return &model{m.lgK, append([]uint64(nil), m.rows...)}
}

// kxp is the sum of the weights of the coupons not collected yet.
func (m *model) kxp() float64 {
	s := 0.0
	for c := 63; c >= 0; c-- {
		n := 0
		for _, r := range m.rows {
			if r>>uint(c)&1 == 0 {
				n++
			}
		}
		s += math.Ldexp(float64(n), -c-1)
	}
	return s
}

type feeder struct{ id uint64 }

// put feeds a new item of the hash (h0,h1).
func (f *feeder) put(s *cpc.CpcSketch, h0, h1 uint64) {
	f.id++
	z.PresetHash(0, z.LE8(f.id), seed, h0, h1)
	z.HashFree = true
	err := s.UpdateUint64(f.id)
	z.HashFree = false
	must(err, "update")
}

// add feeds a new item of the given row and column.
func (f *feeder) add(s *cpc.CpcSketch, m *model, row, col int) {
	f.put(s, uint64(row), ^uint64(0)>>uint(col))
	m.rows[row&(1<<m.lgK-1)] |= 1 << uint(col)
}

// at is coupon i of a stream of one of several shapes.
func at(shape, i, k int) (int, int) {
	switch shape {
	case 0: // as from hashing
		x := mix(uint64(i), 7)
		c := 0
		for x>>uint(20+c)&1 == 0 && c < 40 {
			c++
		}
		return int(x) & (k - 1), c
	case 1: // column by column
		return i % k, i / k % 64
	case 2: // row by row
		return i / 64 % k, i % 64
	case 3: // rows and columns downwards
		return k - 1 - i/64%k, 63 - i%64
	case 4: // columns of pairs, with holes to be filled much later
		j := i % k
		c := i / k
		if (j*5+c)%7 == 0 {
			c = (c + 9) % 64
		}
		return j, c % 64
	case 5: // random rows and columns
		x := mix(uint64(i), 3)
		return int(x) & (k - 1), int(x>>20) & 63
	case 7: // column by column, downwards: the largest tables of pairs
		return i % k, 63 - i/k%64
	}
	// mostly one column, then the next ones
	x := mix(uint64(i), 5)
	return int(x>>7) & (k - 1), (i/(k*2) + int(x>>40)%3) % 64
}

// filled is a sketch of n coupons of a shape.
func filled(f *feeder, lgK, shape, n int) (*cpc.CpcSketch, *model) {
	s, err := cpc.NewCpcSketch(lgK, seed)
	must(err, "new")
	m := newModel(lgK)
	c := 0
	for i := 0; c < n; i++ {
		row, col := at(shape, i, 1<<lgK)
		if !m.has(row, col) {
			c++
		}
		f.add(s, m, row, col)
	}
	return s, m
}

// matrix is the coupons of a sketch.
func matrix(s *cpc.CpcSketch) []uint64 {
	u, err := cpc.NewCpcUnionSketch(s.GetLgK(), seed)
	must(err, "new union")
	must(u.Update(s), "union")
	b, err := u.GetBitMatrix()
	must(err, "matrix")
	return b
}

func image(s *cpc.CpcSketch) []byte {
	b, err := s.ToCompactSlice()
	must(err, "serialize")
	return b
}

func parse(b []byte) *cpc.CpcSketch {
	s, err := cpc.NewCpcSketchFromSlice(b, seed)
	must(err, "deserialize")
	return s
}

func u32(b []byte, i int) uint64 {
	return uint64(b[i]) | uint64(b[i+1])<<8 | uint64(b[i+2])<<16 | uint64(b[i+3])<<24
}

// coupons is the count of coupons of an image.
func coupons(b []byte) uint64 {
	if len(b) < 12 {
		return 0
	}
	return u32(b, 8)
}

func same(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = z.And(ok, a[i] == b[i])
	}
	return ok
}

func (m *model) check(s *cpc.CpcSketch, what string) {
	b := matrix(s)
	ok := true
	for i := range m.rows {
		ok = z.And(ok, b[i] == m.rows[i])
	}
	z.Assert(ok, what+" the sketch holds exactly the coupons fed")
}

// bounds: the estimate is at least the count of coupons and lies between its bounds.
func (m *model) bounds(s *cpc.CpcSketch, what string) {
	e := s.GetEstimate()
	n := float64(m.count())
	z.Assert(e >= n*(1-1e-9), what+" the estimate is at least the count of coupons")
	for kappa := 1; kappa <= 3; kappa++ {
		lb, ub := s.GetLowerBound(kappa), s.GetUpperBound(kappa)
		z.Assert(lb <= e && e <= ub, what+" the estimate lies between its bounds")
		z.Assert(lb >= n || n == 0 && lb == 0, what+" the lower bound is at least the count of coupons")
	}
}

// Stream: after every prefix of a stream of a shape, the coupons, the count and the estimator
// are those of the set; a repeated coupon changes nothing.
//
// zz: C11 q Stream 4 0 90 | budget=60 covers=new,old
// zz: C11 q Stream 4 1 420 | budget=60 covers=new
// zz: C11 q Stream 4 2 300 | budget=60 covers=new
// zz: C11 q Stream 4 3 400 | budget=60 covers=new
// zz: C11 q Stream 4 4 420 | budget=60 covers=new
// zz: C11 q Stream 4 5 500 | budget=60 covers=new,old
// zz: C11 q Stream 4 6 500 | budget=60 covers=new,old
// zz: C11 q Stream 4 7 700 | budget=60 covers=new
// zz: C11 t Stream 4 7 900 | budget=100 covers=new
// zz: C11 t Stream 5 7 1800 | budget=200 maxsteps=2000000000 covers=new
// zz: C11 t Stream 4 0 300 | budget=200 covers=new,old
// zz: C11 t Stream 5 1 1200 | budget=300 covers=new
// zz: C11 t Stream 5 5 1200 | budget=300 covers=new,old
func Stream(lgK, shape, n int) {
	z.Merging(false)
	f := &feeder{}
	s, err := cpc.NewCpcSketch(lgK, seed)
	must(err, "new")
	m := newModel(lgK)
	// an arbitrary coupon comes first, somewhere in between, or last
	at1 := z.Choose("when", 2) * (n / 2)
	row, col := z.Choose("row", 2)*(1<<lgK-1), z.Choose("col", 16)*4+1
	for i := 0; i <= n; i++ {
		if i == at1 {
			f.step(s, m, row, col)
		}
		r, c := at(shape, i, 1<<lgK)
		f.step(s, m, r, c)
	}
	m.check(s, "at the end")
	m.bounds(s, "at the end")
	z.Assert(coupons(image(s)) == m.count(), "the count of coupons is exact")
}

// step feeds a coupon and checks the estimator.
func (f *feeder) step(s *cpc.CpcSketch, m *model, row, col int) {
	e := s.GetEstimate()
	if m.has(row, col) {
		f.add(s, m, row, col)
		z.Cover("old")
		z.Assert(s.GetEstimate() == e, "an old coupon does not change the estimate")
		return
	}
	x := m.kxp()
	f.add(s, m, row, col)
	z.Cover("new")
	d := (s.GetEstimate() - e) * x / float64(int(1)<<m.lgK)
	z.Assert(d > 0.999999 && d < 1.000001, "a new coupon adds the inverse of its probability")
}

// lead is the count of leading zeros of h, at most 63.
func lead(h uint64) uint64 {
	c := uint64(0)
	for i := 1; i <= 63; i++ {
		c += z.B2U(h>>uint(64-i) == 0)
	}
	return c
}

// Any: after n coupons of a shape, an item of any hash sets the bit of its row and column, and
// only a new one counts.
//
// zz: C11 q Any 4 0 0 1 1 0 | budget=100 covers=new,old
// zz: C11 t Any 4 0 7 53 46 0 | budget=100 covers=new,old
// zz: C11 q Any 4 0 53 53 46 0 | budget=100 covers=new,old
// zz: C11 t Any 4 1 165 165 1 0 | budget=100 covers=new,old
// zz: C11 q Any 4 0 0 72 6 4 | budget=60 covers=new,old
// zz: C11 t Any 4 0 0 72 1 8 | budget=200 covers=new
// zz: C11 t Any 5 0 0 144 12 8 | budget=200 covers=new
// zz: C11 q Any 4 1 0 72 9 4 | budget=60 covers=new,old
// zz: C11 q Any 4 1 85 400 80 4 | budget=60 covers=new,old
// zz: C11 t Any 4 1 0 72 1 8 | budget=200 covers=new
// zz: C11 t Any 4 1 85 405 16 8 | budget=200 covers=new
// zz: C11 t Any 5 1 0 144 12 8 | budget=200 covers=new
// zz: C11 q Any 4 2 0 72 9 4 | budget=60 covers=new,old
// zz: C11 q Any 4 2 85 400 80 4 | budget=60 covers=new,old
// zz: C11 t Any 4 2 0 72 1 8 | budget=200 covers=new
// zz: C11 t Any 4 2 85 405 16 8 | budget=200 covers=new
// zz: C11 t Any 5 2 0 144 12 8 | budget=200 covers=new
// zz: C11 q Any 4 3 0 72 9 4 | budget=60 covers=new
// zz: C11 q Any 4 3 85 400 80 4 | budget=60 covers=new,old
// zz: C11 t Any 4 3 0 72 1 8 | budget=200 covers=new
// zz: C11 t Any 4 3 85 405 16 8 | budget=200 covers=new
// zz: C11 t Any 5 3 0 144 12 8 | budget=200 covers=new
// zz: C11 q Any 4 4 0 72 9 4 | budget=60 covers=new,old
// zz: C11 q Any 4 4 85 400 80 4 | budget=60 covers=new,old
// zz: C11 t Any 4 4 0 72 1 8 | budget=200 covers=new
// zz: C11 t Any 4 4 85 405 16 8 | budget=200 covers=new
// zz: C11 t Any 5 4 0 144 12 8 | budget=200 covers=new
// zz: C11 q Any 4 5 0 72 9 4 | budget=60 covers=new,old
// zz: C11 q Any 4 5 85 400 80 4 | budget=60 covers=new,old
// zz: C11 t Any 4 5 0 72 1 8 | budget=200 covers=new
// zz: C11 t Any 4 5 85 405 16 8 | budget=200 covers=new
// zz: C11 t Any 5 5 0 144 12 8 | budget=200 covers=new
// zz: C11 q Any 4 6 0 72 9 4 | budget=60 covers=new,old
// zz: C11 q Any 4 6 85 400 80 4 | budget=60 covers=new,old
// zz: C11 t Any 4 6 0 72 1 8 | budget=200 covers=new
// zz: C11 t Any 4 6 85 405 16 8 | budget=200 covers=new
// zz: C11 t Any 5 6 0 144 12 8 | budget=200 covers=new
// zz: C11 t Any 4 0 0 64 7 0 | budget=300 covers=new,old
// zz: C11 t Any 4 5 53 165 16 16 | budget=600 covers=new,old
// zz: C11 t Any 4 6 53 165 16 16 | budget=600 covers=new,old
// zz: C11 t Any 5 0 2 2 1 0 | budget=300 covers=new,old
// zz: C11 t Any 5 0 107 107 1 0 | budget=300 covers=new,old
func Any(lgK, shape, lo, hi, step, rows int) {
	f := &feeder{}
	n := lo + z.Choose("n", (hi-lo)/step+1)*step
	s, m := filled(f, lgK, shape, n)
	e := s.GetEstimate()
	x := m.kxp()
	h0, h1 := z.U64("h0"), z.U64("h1")
	if rows > 0 { // one of some rows and each column
		h0 = h0>>uint(lgK)<<uint(lgK) | uint64(z.Choose("row", rows)*7&(1<<lgK-1))
		h1 = ^uint64(0) >> uint(z.Choose("col", 64))
		z.Merging(false)
	}
	row, col := h0&(1<<lgK-1), lead(h1)
	f.put(s, h0, h1)
	b := matrix(s)
	old := false
	ok := true
	for i, r := range m.rows {
		old = z.Or(old, z.And(row == uint64(i), r>>col&1 == 1))
		ok = z.And(ok, b[i] == r|z.B2U(row == uint64(i))<<col)
	}
	z.Assert(ok, "the sketch holds exactly the coupons fed")
	g := s.GetEstimate()
	if old {
		z.Cover("old")
		z.Assert(g == e, "an old coupon does not change the estimate")
	} else {
		z.Cover("new")
		d := (g - e) * x / float64(int(1)<<lgK)
		z.Assert(d > 0.999999 && d < 1.000001, "a new coupon adds the inverse of its probability")
	}
}

// Package zzhll: HLL sketches.
package zzhll

import (
	"math"

	"github.com/apache/datasketches-go/hll"
	z "github.com/apache/datasketches-go/internal/zzsym"
)

const seed = 9001

func must(err error, what string) {
	if err != nil {
		z.Assert(false, what+" fails: "+err.Error())
	}
}

// mix is a fixed scrambler used for concrete items.
func mix(i, salt uint64) uint64 {
	x := (i+1)*0x9E3779B97F4A7C15 + salt*0xD1B54A32D192ED03
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	return x
}

// coup is what an item contributes: 26 bits of its hash and a value in 1..63.
type coup struct{ addr, val uint64 }

func (c coup) int() uint64 { return c.val<<26 | c.addr }

type updater interface {
	UpdateUInt64(uint64) error
}

type feeder struct {
	id  uint64
	all []coup
}

// put feeds a new item with the hash (h1,h2).
func (f *feeder) put(s updater, h1, h2 uint64) {
	f.id++
	z.PresetHash(0, z.LE8(f.id), seed, h1, h2)
	must(s.UpdateUInt64(f.id), "update")
}

// add feeds a new item of address addr and value val (1..62; concrete).
func (f *feeder) add(s updater, addr uint64, val int) {
	f.all = append(f.all, coup{addr, uint64(val)})
	f.put(s, addr, ^uint64(0)>>uint(val-1))
}

// sym feeds an item with an arbitrary hash, of the given low address bits when lo >= 0.
func (f *feeder) sym(s updater, lo int, bits uint) {
	h1, h2 := z.U64("h1"), z.U64("h2")
	if lo >= 0 {
		h1 = h1>>bits<<bits | uint64(lo)
	}
	f.all = append(f.all, coup{h1 & (1<<26 - 1), value(h2)})
	f.put(s, h1, h2)
}

// value is one more than the number of leading zeros, at most 63.
func value(h uint64) uint64 {
	v := uint64(1)
	for i := 1; i <= 62; i++ {
		v += z.B2U(h>>uint(64-i) == 0)
	}
	return v
}

// symv feeds an item of a concrete slot whose value is arbitrary.
func (f *feeder) symv(s updater, addr uint64) {
	v := z.Nondet("v", 6)
	z.Assume(v < 63)
	f.all = append(f.all, coup{addr, v + 1})
	f.put(s, addr, ^uint64(0)>>v)
}

func u32(b []byte, i int) uint64 {
	return uint64(b[i]) | uint64(b[i+1])<<8 | uint64(b[i+2])<<16 | uint64(b[i+3])<<24
}

func u64(b []byte, i int) uint64 { return u32(b, i) | u32(b, i+4)<<32 }

// coupons reads the coupons of an image in list or set mode.
func coupons(b []byte) []uint64 {
	start := 8
	if b[7]&3 == 1 {
		start = 12
	}
	var r []uint64
	for i := start; i+4 <= len(b); i += 4 {
		r = append(r, u32(b, i))
	}
	return r
}

// registers reads the registers of an updatable or compact image in HLL mode.
func registers(b []byte) []uint64 {
	k := 1 << b[3]
	r := make([]uint64, k)
	switch b[7] >> 2 & 3 {
	case 0:
		for j := range r {
			nib := uint64(b[40+j/2]) >> uint(4*(j&1)) & 15
			if z.IsConcrete(nib) && nib != 15 {
				r[j] = nib + uint64(b[6])
				continue
			}
			v := uint64(0)
			n := uint64(0)
			for i := 40 + k/2; i+4 <= len(b); i += 4 {
				p := u32(b, i)
				hit := z.And(p != 0, p&uint64(k-1) == uint64(j))
				v = z.Ite(hit, p>>26, v)
				n += z.B2U(hit)
			}
			z.Assert(z.Implies(nib == 15, n == 1), "an exception has one entry in the exception table")
			r[j] = z.Ite(nib == 15, v, nib+uint64(b[6]))
		}
	case 1:
		for j := range r {
			w := uint64(0)
			for i := 0; i < 6; i++ {
				at := j*6 + i
				w |= uint64(b[40+at/8]) >> uint(at%8) & 1 << uint(i)
			}
			r[j] = w
		}
	case 2:
		for j := range r {
			r[j] = uint64(b[40+j])
		}
	}
	return r
}

// model is the register contents for the coupons fed.
func model(all []coup, lgK int) []uint64 {
	r := make([]uint64, 1<<lgK)
	for _, c := range all {
		at := c.addr & uint64(len(r)-1)
		if z.IsConcrete(at) {
			r[at] = z.Ite(c.val > r[at], c.val, r[at])
			continue
		}
		for j := range r {
			r[j] = z.Ite(z.And(at == uint64(j), c.val > r[j]), c.val, r[j])
		}
	}
	return r
}

// checkCoupons: the image holds exactly the distinct coupons.
func checkCoupons(b []byte, all []coup, label string) {
	got := coupons(b)
	n := uint64(0)
	if b[7]&3 == 0 {
		n = uint64(b[6])
	} else {
		n = u32(b, 8)
	}
	found := make([]bool, len(all))
	ok, dup := true, false
	cnt := uint64(0)
	for _, g := range got {
		in := false
		for i, c := range all {
			eq := c.int() == g
			in = z.Or(in, eq)
			dup = z.Or(dup, z.And(eq, found[i]))
			found[i] = z.Or(found[i], eq)
		}
		ok = z.And(ok, z.Or(g == 0, in))
		cnt += z.B2U(g != 0)
	}
	z.Assert(ok, label+": every coupon kept was fed")
	z.Assert(!dup, label+": no coupon is kept twice")
	all1 := true
	for _, f := range found {
		all1 = z.And(all1, f)
	}
	z.Assert(all1, label+": every coupon fed is kept")
	z.Assert(n == cnt, label+": the coupon count is the number of coupons kept")
}

func checkRegs(b []byte, want []uint64, label string) {
	ok := int(b[3]) < 32 && len(want) == 1<<b[3]
	if !ok {
		z.Assert(false, label+": the size is right")
		return
	}
	for j, v := range registers(b) {
		ok = z.And(ok, v == want[j])
	}
	z.Assert(ok, label+": every register is the maximum of its coupons")
	if b[7]>>2&3 == 0 {
		// the announced minimum and its multiplicity
		m, low := uint64(0), true
		for _, v := range want {
			m += z.B2U(v == uint64(b[6]))
			low = z.And(low, v >= uint64(b[6]))
		}
		z.Assert(z.And(low, m == u32(b, 32)), label+": the current minimum and its count are exact")
		z.Assert(z.Or(m > 0, false), label+": the current minimum is attained")
	} else if b[5]&32 == 0 {
		m, min := uint64(0), uint64(64)
		for _, v := range want {
			min = z.Ite(v < min, v, min)
		}
		if b[6] != 0 {
			// only a minimum of zero is kept up to date (and used)
			z.Assert(min > 0, label+": the current minimum is zero while a register is")
			return
		}
		for _, v := range want {
			m += z.B2U(v == 0)
		}
		z.Assert(m == u32(b, 32), label+": the count of registers at the minimum is exact")
	}
}

// check reads the sketch back in every way and compares it to the items fed.
func check(s hll.HllSketch, all []coup, lgK int) {
	z.Assert(s.IsEmpty() == (len(all) == 0), "empty exactly when nothing was fed")
	z.Assert(s.GetLgConfigK() == lgK, "the size stays as configured")
	var want []uint64
	if int(s.GetCurMode()) == 2 {
		want = model(all, lgK)
	}
	checkImages(s, all, want, "the sketch")
	for t := hll.TgtHllTypeHll4; t <= hll.TgtHllTypeHll8; t++ {
		c, err := s.CopyAs(t)
		must(err, "copy as")
		z.Assert(c.GetTgtHllType() == t, "a copy as another type has that type")
		checkImages(c, all, want, "a copy as another type")
		b1, _ := s.ToUpdatableSlice()
		b2, _ := c.ToUpdatableSlice()
		z.Assert(b1[7]&3 == b2[7]&3, "a copy as another type has the same mode")
		if b1[7]&3 == 2 {
			z.Assert(u64(b1, 8) == u64(b2, 8), "a copy as another type has the same HIP estimate")
		}
	}
}

func checkImages(s hll.HllSketch, all []coup, want []uint64, label string) {
	b, err := s.ToUpdatableSlice()
	must(err, "serialize")
	z.Assert(s.GetUpdatableSerializationBytes() == len(b), label+": the updatable size is as announced")
	z.Assert(int(b[7]&3) == int(s.GetCurMode()), label+": mode")
	z.Assert(int(b[7]>>2) == int(s.GetTgtHllType()), label+": type")
	c, err := s.ToCompactSlice()
	must(err, "serialize")
	if b[7]&3 == 2 {
		checkRegs(b, want, label)
		checkRegs(c, want, label+", compact")
		z.Cover("hll")
		return
	}
	checkCoupons(b, all, label)
	checkCoupons(c, all, label+", compact")
}

func newSketch(lgK, typ int) hll.HllSketch {
	s, err := hll.NewHllSketch(lgK, hll.TgtHllType(typ))
	must(err, "new")
	return s
}

// List: items of arbitrary hash in a sketch too small for more than a list.
//
// zz: C08 q List 8 0 0
// zz: C08 q List 4 1 2
// zz: C08 q List 21 2 2
// zz: C08 t List 12 0 3
func List(lgK, typ, sym int) {
	z.HashFree = true
	s := newSketch(lgK, typ)
	f := &feeder{}
	for i := 0; i < sym; i++ {
		f.sym(s, -1, 0)
	}
	check(s, f.all, lgK)
}

// base is a fixed state, chosen by salt: values by slot.
func (f *feeder) base(s updater, lgK, pre, salt int) {
	k := 1 << lgK
	switch salt {
	case 0: // scattered small values
		for i := 0; i < pre; i++ {
			f.add(s, mix(uint64(i), 1)&(1<<26-1), 1+int(mix(uint64(i), 7)%5))
		}
	case 1: // distinct buckets, all at least 2, some exceptions
		for i := 0; i < pre; i++ {
			v := 2 + i%4
			if i%5 == 4 {
				v = 15 + i
			}
			f.add(s, uint64(i*5)&uint64(k-1), v)
		}
	case 2: // exceptions only
		for i := 0; i < pre; i++ {
			f.add(s, uint64(i*7)&uint64(k-1), 15+i)
		}
	case 3: // colliding addresses of different buckets: equal low 5 bits
		for i := 0; i < pre; i++ {
			f.add(s, uint64(i)<<5|3, 1+i%3)
		}
	}
}

// symc feeds an item whose 14 low address bits are one of np patterns, chosen to collide with
// the fixed items of salt 3, and whose other address bits and value are arbitrary.
func (f *feeder) symc(s updater, np int) {
	pats := [...]uint64{0x3, 0x23, 0x463, 0x1c05, 0x0}
	addr := z.Nondet("hi", 12)<<14 | pats[z.Choose("pat", np)]
	v := z.Nondet("v", 6)
	z.Assume(v < 63)
	f.all = append(f.all, coup{addr, v + 1})
	f.put(s, addr, ^uint64(0)>>v)
}

// Update: pre fixed items, then sym items of arbitrary value in arbitrary buckets of nb.
//
// zz: C08 q Update 4 0 6 0 2 16
// zz: C08 q Update 4 1 6 0 2 16
// zz: C08 q Update 4 2 6 0 2 16
// zz: C08 q Update 4 0 15 1 2 16 | covers=shifted
// zz: C08 q Update 4 0 8 2 2 16
// zz: C08 q Update 4 0 16 2 1 16 | covers=shifted
// zz: C08 t Update 5 0 31 1 2 32 | covers=shifted
// zz: C08 q Update 7 1 9 0 1 128
// zz: C08 t Update 4 0 15 1 3 16 | covers=shifted
// zz: C08 t Update 4 0 6 0 3 16
// zz: C08 t Update 4 1 6 0 3 16
// zz: C08 t Update 4 2 6 0 3 16
// zz: C08 t Update 4 0 8 2 3 16
func Update(lgK, typ, pre, salt, sym, nb int) {
	z.HashFree = true
	z.Merging(false)
	s := newSketch(lgK, typ)
	f := &feeder{}
	f.base(s, lgK, pre, salt)
	for i := 0; i < sym; i++ {
		f.symv(s, uint64(z.Choose("slot", nb)))
	}
	if b, _ := s.ToUpdatableSlice(); typ == 0 && b[7]&3 == 2 && b[6] > 0 {
		z.Cover("shifted")
	}
	check(s, f.all, lgK)
}

// Set: like Update, for the hash set (32 entries, growing up to 2^(lgK-3)).
//
// zz: C08 q Set 8 0 6 3 2 4
// zz: C08 q Set 8 1 12 3 2 4
// zz: C08 q Set 8 2 23 3 2 3 | covers=hll
// zz: C08 q Set 8 0 24 0 1 5 | covers=hll
// zz: C08 q Set 9 0 23 3 2 3
// zz: C08 q Set 10 1 23 0 2 3
// zz: C08 t Set 8 0 22 3 3 3
// zz: C08 t Set 9 0 22 3 3 3
// zz: C08 t Set 9 0 47 3 2 3 | covers=hll
// zz: C08 t Set 12 0 47 3 2 3
func Set(lgK, typ, pre, salt, sym, np int) {
	z.HashFree = true
	z.Merging(false)
	s := newSketch(lgK, typ)
	f := &feeder{}
	f.base(s, lgK, pre, salt)
	for i := 0; i < sym; i++ {
		f.symc(s, np)
	}
	check(s, f.all, lgK)
}

// Sums: the numbers the estimate of a sketch in HLL mode comes from. Items of a few values fall
// in a few buckets; the sum over the registers of 2^-value is exact, and the running (HIP)
// estimate grows at each change of a register by k over that sum.
//
// zz: C08 q Sums 4 0 15 1 3
// zz: C08 q Sums 4 1 8 2 3
// zz: C08 q Sums 4 2 8 0 3
// zz: C08 q Sums 8 0 25 0 2
// zz: C08 t Sums 4 0 15 1 4
// zz: C08 t Sums 4 1 15 1 4
// zz: C08 t Sums 4 2 15 1 4
func Sums(lgK, typ, pre, salt, sym int) {
	z.HashFree = true
	z.Merging(false)
	s := newSketch(lgK, typ)
	f := &feeder{}
	f.base(s, lgK, pre, salt)
	k := float64(uint64(1) << lgK)
	hip := hipOf(s)
	vals := [...]int{1, 14, 17, 31, 32, 62}
	slots := [...]uint64{0, 10, 3}
	for i := 0; i < sym; i++ {
		before := model(f.all, lgK)
		slot := slots[z.Choose("slot", len(slots))]
		val := vals[z.Choose("val", len(vals))]
		f.add(s, slot, val)
		if uint64(val) > before[slot] {
			t := 0.0
			for _, r := range before {
				t += 1 / float64(uint64(1)<<r)
			}
			hip += k / t
		}
		got := hipOf(s)
		z.Assert(math.Abs(got-hip) <= 1e-6*hip, "the running estimate grows by k over the sum of inverse powers")
		est, err := s.GetEstimate()
		must(err, "estimate")
		z.Assert(est == got, "the estimate is the running estimate")
		checkSums(image(s), model(f.all, lgK), "the sketch")
		for sd := 1; sd <= 3; sd++ {
			l, err := s.GetLowerBound(sd)
			must(err, "bound")
			h, err := s.GetUpperBound(sd)
			must(err, "bound")
			z.Assert(l <= est && est <= h, "the bounds bracket the estimate")
		}
	}
	z.Cover("hll")
}

func hipOf(s hll.HllSketch) float64 {
	b := image(s)
	z.Assert(b[7]&3 == 2, "the fixed items bring the sketch to HLL mode")
	return math.Float64frombits(u64(b, 8))
}

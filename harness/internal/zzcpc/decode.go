package zzcpc

import (
	"math"

	"github.com/apache/datasketches-go/cpc"
	z "github.com/apache/datasketches-go/internal/zzsym"
)

// usable: a sketch read from an image, if any, works.
func usable(b []byte, refuse bool) {
	z.Bounded(1<<22, func() {
		if w, err := cpc.NewCpcWrapperFromBytes(b); err == nil {
			w.GetEstimate()
			w.GetLowerBound(2)
			w.GetUpperBound(2)
		}
		s, err := cpc.NewCpcSketchFromSlice(b, seed)
		if err != nil {
			z.Cover("refused")
			z.Assert(s == nil, "an error comes without a sketch")
			return
		}
		z.Cover("read")
		z.Assert(!refuse, "a broken image is refused")
		if s.GetLgK() > 8 { // the checks below would be what allocates
			s.GetEstimate()
			return
		}
		f := &feeder{id: 1 << 20}
		m := newModel(s.GetLgK())
		copy(m.rows, matrix(s))
		m.bounds(s, "read,")
		c := image(s)
		z.Assert(coupons(c) == m.count(), "the count of coupons is exact")
		t := parse(c)
		alike(s, t, "read again,")
		e := s.GetEstimate()
		z.Assert(!math.IsNaN(e) && !math.IsInf(e, 0), "the estimate is a number")
		if m.count() > uint64(50<<m.lgK) {
			return
		}
		for i := 0; i < 12; i++ {
			f.add(s, m, i*3, i*i%50)
		}
		m.check(s, "updated,")
	})
}

// Broken: an image of a sketch of n coupons is cut, or a byte of it changed.
//
// zz: C26 q Broken 4 0 0 0 | budget=40 covers=refused,read
// zz: C26 q Broken 4 0 1 0 | budget=40 covers=refused,read
// zz: C26 q Broken 4 0 5 1 | budget=40 covers=refused,read
// zz: C26 q Broken 4 5 6 0 | budget=40 covers=refused,read
// zz: C26 q Broken 4 0 30 0 | budget=40 covers=refused,read
// zz: C26 q Broken 4 1 70 0 | budget=40 covers=refused,read
// zz: C26 q Broken 4 6 100 1 | budget=40 covers=refused,read
// zz: C26 q Broken 4 0 40 1 | budget=40 covers=refused,read
// zz: C26 t Broken 5 0 200 0 | budget=100 covers=refused,read
// zz: C26 t Broken 5 3 120 1 | budget=100 covers=refused,read
// zz: C26 t Broken 5 4 180 0 | budget=100 covers=refused,read
func Broken(lgK, shape, n, merged int) {
	z.Merging(false)
	f := &feeder{}
	s, _ := filled(f, lgK, shape, n)
	if merged == 1 {
		u := newUnion(lgK)
		must(u.Update(s), "union")
		var err error
		s, err = u.GetResult()
		must(err, "result")
	}
	b := image(s)
	if z.Choose("how", 2) == 0 {
		usable(b[:z.Choose("cut", len(b))], true)
		return
	}
	i := z.Choose("at", len(b))
	v := byte(z.Choose("value", 32))
	switch {
	case v < 8:
		b[i] ^= 1 << v
	default:
		b[i] = v*37 + 11
	}
	usable(b, false)
}

// Short: any string of n bytes, with the right family, version and seed hash or not.
//
// zz: C26 q Short 3 0 | budget=40 covers=refused
// zz: C26 q Short 7 0 | budget=40 covers=refused
// zz: C26 t Short 8 0 | budget=60 covers=refused,read
// zz: C26 q Short 16 3 | budget=60 covers=refused,read
// zz: C26 q Short 20 1 | budget=60 maxconc=5000 covers=refused
// zz: C26 t Short 36 2 | budget=300 maxconc=5000 covers=refused
func Short(n, how int) {
	z.Merging(false)
	b := make([]byte, n)
	any := 0
	if how == 1 || how == 2 {
		any = n - 1 - z.Choose("any", 4)
	}
	f := &feeder{}
	s, _ := filled(f, 4, 0, 1)
	good := image(s)
	for i := range b {
		switch {
		case how == 1 && i < 16:
			// a sparse image of a merged sketch, of any stream
			b[i] = []byte{4, 1, 16, 4, 0, 2 | 2<<2, good[6], good[7], 1, 0, 0, 0, 1, 0, 0, 0}[i]
		case how == 3 && i < 6:
			if i == 0 {
				b[5] = byte(z.Choose("flags", 64))
			}
			b[i] = []byte{[]byte{2, 2, 4, 8, 4, 8, 6, 10}[b[5]>>2&7], 1, 16, 5, 0, b[5]}[i]
		case how == 3 && i < 8:
			b[i] = good[i]
		case how == 3:
			if i&3 == 0 || i&3 == 3 {
				b[i] = []byte{0, 1, 50, 255}[z.Choose("b", 4)]
			}
		case how == 2 && i < 32:
			b[i] = good[i]
		case how == 1 || how == 2:
			if i == any {
				b[i] = z.U8("b")
			} else {
				b[i] = byte(i * 53)
			}
		default:
			b[i] = z.U8("b")
		}
	}
	usable(b, false)
}

package zzkll

import (
	"math"

	"github.com/apache/datasketches-go/common"
	z "github.com/apache/datasketches-go/internal/zzsym"
	"github.com/apache/datasketches-go/kll"
)

// kind is a type of item: how to order, store and make it.
type kind[T comparable] struct {
	cmp   common.CompareFn[T]
	serde common.ItemSketchSerde[T]
	fixed func(i uint64) T
	any   func() T
	eq    func(a, b T) bool
}

var longKind = kind[int64]{common.ItemSketchLongComparator(false), common.ItemSketchLongSerDe{},
	func(i uint64) int64 { return int64(mix(i, 7)) }, func() int64 { return int64(z.U64("item")) },
	func(a, b int64) bool { return a == b }}

var doubleKind = kind[float64]{common.ItemSketchDoubleComparator(false), common.ItemSketchDoubleSerDe{},
	func(i uint64) float64 { return float64(mix(i, 7)%1000) / 8 }, func() float64 {
		f := z.F64("item")
		z.Assume(f == f)
		return f
	},
	func(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }}

var floatKind = kind[float32]{common.ItemSketchFloatComparator(true), common.ItemSketchFloatSerDe{},
	func(i uint64) float32 { return float32(mix(i, 7)%1000) / 8 }, func() float32 {
		f := z.F32("item")
		z.Assume(f == f)
		return f
	},
	func(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) }}

var stringKind = kind[string]{common.ItemSketchStringComparator(false), common.ItemSketchStringSerDe{},
	func(i uint64) string { return "aXbYcZdefg"[mix(i, 7)%7 : 7+mix(i, 8)%4] },
	func() string { return string(z.Bytes("item", z.Choose("length", 3))) },
	func(a, b string) bool { return a == b }}

func sameSketch[T comparable](kd kind[T], a, b *kll.ItemsSketch[T], label string) {
	z.Assert(a.GetN() == b.GetN(), label+": n")
	z.Assert(a.GetK() == b.GetK(), label+": k")
	z.Assert(a.IsEmpty() == b.IsEmpty(), label+": emptiness")
	z.Assert(a.IsEstimationMode() == b.IsEstimationMode(), label+": estimation mode")
	z.Assert(a.GetNumRetained() == b.GetNumRetained(), label+": number retained")
	z.Assert(a.GetNormalizedRankError(false) == b.GetNormalizedRankError(false), label+": rank error")
	z.Assert(a.GetNormalizedRankError(true) == b.GetNormalizedRankError(true), label+": rank error")
	if a.IsEmpty() || b.IsEmpty() {
		return
	}
	x, err := a.GetMinItem()
	must(err, "min")
	y, err := b.GetMinItem()
	must(err, "min")
	z.Assert(kd.eq(x, y), label+": minimum")
	x, err = a.GetMaxItem()
	must(err, "max")
	y, err = b.GetMaxItem()
	must(err, "max")
	z.Assert(kd.eq(x, y), label+": maximum")
	i, j := a.GetIterator(), b.GetIterator()
	for i.Next() {
		if !j.Next() {
			z.Assert(false, label+": as many items")
			return
		}
		z.Assert(kd.eq(i.GetQuantile(), j.GetQuantile()), label+": items")
		z.Assert(i.GetWeight() == j.GetWeight(), label+": weights")
	}
	z.Assert(!j.Next(), label+": no more items")
}

func serde[T comparable](kd kind[T], k, m, n, sym, more int) {
	z.Merging(false)
	z.Coin = z.CoinOne
	s, err := kll.NewKllItemsSketch[T](uint16(k), uint8(m), kd.cmp, kd.serde)
	must(err, "new")
	for i := 0; i < n; i++ {
		if i >= n-sym {
			s.Update(kd.any())
		} else {
			s.Update(kd.fixed(uint64(i)))
		}
	}
	if more > 0 {
		// a merged sketch of a smaller size
		o, err := kll.NewKllItemsSketch[T](8, uint8(m), kd.cmp, kd.serde)
		must(err, "new")
		for i := 0; i < more; i++ {
			o.Update(kd.fixed(uint64(i) + 100))
		}
		s.Merge(o)
	}
	size, err := s.GetSerializedSizeBytes()
	must(err, "size")
	b, err := s.ToSlice()
	must(err, "serialize")
	z.Assert(len(b) == size, "the size is as announced")
	r, err := kll.NewKllItemsSketchFromSlice[T](b, kd.cmp, kd.serde)
	must(err, "reading")
	sameSketch(kd, s, r, "read back")
	for i := range b {
		b[i] = 0xA5
	}
	sameSketch(kd, s, r, "after the slice was overwritten")
	b1, err := s.ToSlice()
	must(err, "serialize")
	b2, err := r.ToSlice()
	must(err, "serialize")
	ok := len(b1) == len(b2)
	for i := range b1 {
		ok = z.And(ok, b1[i] == b2[i])
	}
	z.Assert(ok, "both serialize alike")
	for i := 0; i < 3; i++ {
		x := kd.fixed(uint64(i) + 50)
		s.Update(x)
		r.Update(x)
	}
	sameSketch(kd, s, r, "after further updates")
	z.Observe(uint64(size))
}

// Longs, Doubles, Floats, Strings: a sketch of n items (sym arbitrary ones last), merged with one
// of more items, reads back as it was written and goes on alike.
//
// zz: C16 q Longs 8 8 0 0 0
// zz: C16 q Longs 8 8 1 1 0
// zz: C16 q Longs 8 8 2 2 0
// zz: C16 q Longs 8 8 8 2 0
// zz: C16 q Longs 8 8 9 2 0
// zz: C16 q Longs 8 2 40 1 0
// zz: C16 q Longs 200 8 5 1 0
// zz: C16 q Longs 40000 8 3 1 0
// zz: C16 q Longs 20 8 9 1 12
// zz: C16 q Longs 12 4 25 1 22
// zz: C16 t Longs 16 8 70 1 40
func Longs(k, m, n, sym, more int) { serde(longKind, k, m, n, sym, more) }

// zz: C16 q Doubles 8 8 1 1 0
// zz: C16 q Doubles 8 8 5 2 0
// zz: C16 q Doubles 8 8 17 1 0
func Doubles(k, m, n, sym, more int) { serde(doubleKind, k, m, n, sym, more) }

// zz: C16 q Floats 8 8 1 1 0
// zz: C16 q Floats 8 8 5 2 0
// zz: C16 q Floats 8 8 17 1 0
func Floats(k, m, n, sym, more int) { serde(floatKind, k, m, n, sym, more) }

// zz: C16 q Strings 8 8 1 1 0
// zz: C16 q Strings 8 8 3 1 0
// zz: C16 q Strings 8 8 11 1 0
func Strings(k, m, n, sym, more int) { serde(stringKind, k, m, n, sym, more) }

package zzkll

import (
	"github.com/apache/datasketches-go/common"
	z "github.com/apache/datasketches-go/internal/zzsym"
	"github.com/apache/datasketches-go/kll"
)

// use goes through the accessors of a sketch that was read.
func use[T comparable](kd kind[T], s *kll.ItemsSketch[T]) {
	n := s.GetN()
	z.Assert(s.IsEmpty() == (n == 0), "emptiness")
	_ = s.GetNormalizedRankError(true)
	_ = s.GetTotalItemsArray()
	cnt, sum := uint32(0), uint64(0)
	if n > 0 {
		i := s.GetIterator()
		for i.Next() {
			_ = i.GetQuantile()
			cnt++
			sum += uint64(i.GetWeight())
		}
		_, err := s.GetMinItem()
		must(err, "min")
		_, err = s.GetMaxItem()
		must(err, "max")
		_, err = s.GetQuantile(0.3, true)
		must(err, "quantile")
		r, err := s.GetRank(kd.fixed(1), false)
		must(err, "rank")
		z.Assert(r >= 0 && r <= 1, "a rank of a sketch that was read is within 0..1")
		_, err = s.GetPartitionBoundaries(2, true)
		must(err, "boundaries")
	}
	z.Assert(cnt == s.GetNumRetained(), "the number retained agrees with iteration")
	z.Assert(sum == n, "the weights of a sketch that was read sum to n")
	b, err := s.ToSlice()
	must(err, "serialize")
	r, err := kll.NewKllItemsSketchFromSlice[T](b, kd.cmp, kd.serde)
	must(err, "reading again")
	z.Assert(r.GetN() == n, "n survives")
	for i := uint64(0); i < 12; i++ {
		s.Update(kd.fixed(i))
	}
	z.Assert(s.GetN() == n+12, "n after updates")
}

func read[T comparable](kd kind[T], b []byte, must bool) {
	s, err := kll.NewKllItemsSketchFromSlice[T](b, kd.cmp, kd.serde)
	if err != nil {
		z.Cover("refused")
		return
	}
	z.Cover("accepted")
	if must {
		z.Assert(false, "a truncated image is refused")
	}
	use(kd, s)
}

// Bytes: n arbitrary bytes; with pre > 0 the first three bytes are those of a sketch of pre
// preamble ints and version ver, k is at most 255.
//
// zz: C26 q Bytes 0 0 0
// zz: C26 q Bytes 7 0 0
// zz: C26 t Bytes 8 0 0
// zz: C26 q Bytes 16 2 2 | covers=accepted maxconc=600
// zz: C26 t Bytes 8 2 1 | covers=accepted maxconc=600
// zz: C26 q Bytes 19 5 1 | maxconc=600
// zz: C26 q Bytes 24 5 1 | maxconc=600
func Bytes(n, pre, ver int) {
	z.Merging(false)
	z.Coin = z.CoinZero
	b := z.Bytes("b", n)
	if pre != 0 {
		b[0], b[1], b[2] = byte(pre), byte(ver), 15
	}
	if n > 7 {
		b[5] = 0
		b[4] = 20
		if n < 16 && pre != 0 {
			b[4] = byte(z.Choose("k", 256))
		} else if n < 16 {
			b[4] = [6]byte{0, 7, 8, 9, 20, 255}[z.Choose("k", 6)]
		}
	}
	read(longKind, b, false)
}

func image[T comparable](kd kind[T], k, m, n int) []byte {
	z.Merging(false)
	z.Coin = z.CoinOne
	s, err := kll.NewKllItemsSketch[T](uint16(k), uint8(m), kd.cmp, kd.serde)
	must(err, "new")
	for i := 0; i < n; i++ {
		s.Update(kd.fixed(uint64(i)))
	}
	b, err := s.ToSlice()
	must(err, "serialize")
	return b
}

func corrupt[T comparable](kd kind[T], k, m, n, lo, hi int) {
	b := image(kd, k, m, n)
	at := lo + z.Choose("at", hi-lo)
	if at >= len(b) {
		return
	}
	if z.Choose("cut", 2) == 1 {
		read(kd, b[:at:at], true)
		return
	}
	switch at {
	case 4: // k is a size: every value on its own
		b[at] = byte(z.Choose("k", 256))
	case 5:
		b[at] = [3]byte{0, 1, 255}[z.Choose("k", 3)]
	default:
		b[at] = z.U8("byte")
	}
	read(kd, b, false)
}

// CorruptLongs and CorruptStrings: the image of a sketch of n items with one arbitrary byte in
// the range [lo,hi) or cut off there.
//
// zz: C26 q CorruptLongs 8 8 0 0 8 | covers=accepted,refused maxconc=300
// zz: C26 q CorruptLongs 8 8 1 0 16 | covers=accepted,refused maxconc=300
// zz: C26 q CorruptLongs 8 8 2 0 52 | covers=accepted,refused maxconc=300
// zz: C26 q CorruptLongs 8 8 20 0 36 | covers=accepted,refused maxconc=300
// zz: C26 q CorruptLongs 8 2 40 16 60 | covers=accepted,refused maxconc=300
// zz: C26 q CorruptLongs 20 4 30 0 40 | covers=accepted,refused maxconc=300
func CorruptLongs(k, m, n, lo, hi int) { corrupt(longKind, k, m, n, lo, hi) }

// zz: C26 q CorruptStrings 8 8 1 0 16 | covers=accepted,refused maxconc=300
// zz: C26 q CorruptStrings 8 8 3 0 60 | covers=accepted,refused maxconc=300
func CorruptStrings(k, m, n, lo, hi int) { corrupt(stringKind, k, m, n, lo, hi) }

// Levels: two arbitrary bytes of the level array.
//
// zz: C26 q Levels 8 8 20 | covers=refused maxconc=300
// zz: C26 q Levels 8 2 40 | covers=refused maxconc=300
func Levels(k, m, n int) {
	b := image(longKind, k, m, n)
	nl := int(b[18])
	i, j := z.Choose("level", nl), z.Choose("level", nl)
	z.Assume(i < j)
	b[20+4*i], b[20+4*j] = z.U8("byte"), z.U8("byte")
	read(longKind, b, false)
}

// Params: a sketch the constructor accepts can be written and read; the others are refused.
//
// zz: C16 q Params
func Params() {
	k := [...]uint16{0, 7, 8, 9, 32767, 32768, 65535}[z.Choose("k", 7)]
	m := z.Choose("m", 12)
	s, err := kll.NewKllItemsSketch[int64](k, uint8(m), common.ItemSketchLongComparator(false), common.ItemSketchLongSerDe{})
	z.Assert(k >= 8 || err != nil, "k below 8 is refused")
	if err != nil {
		z.Assert(k < 8 || m != 8, "the default m is accepted")
		return
	}
	for i := 0; i < 3; i++ {
		s.Update(int64(i))
	}
	b, err := s.ToSlice()
	must(err, "serialize")
	r, err := kll.NewKllItemsSketchFromSlice[int64](b, longKind.cmp, longKind.serde)
	must(err, "reading")
	sameSketch(longKind, s, r, "read back")
}

// Independent: a reset sketch behaves like a new one; merging leaves both sketches independent;
// boundaries, slices and views handed out do not change the sketch.
//
// zz: C29 q Independent 8 8 5 1 3
// zz: C29 q Independent 8 8 12 1 30
// zz: C29 q Independent 12 2 30 0 25
func Independent(k, m, n, sym, n2 int) {
	z.Merging(false)
	z.Coin = z.CoinZero
	s, o := newLongs(k, m), newLongs(8, m)
	ks := keys(n, sym, 0, 6)
	feedLongs(s, ks)
	feedLongs(o, keys(n2, 0, 0, 7))
	before, _ := o.ToSlice()
	s.Merge(o)
	mine, _ := s.ToSlice()
	feedLongs(o, keys(20, 0, 0, 8))
	again, _ := s.ToSlice()
	z.Assert(alike(mine, again), "a sketch does not change when one merged into it is updated")
	a := s.GetTotalItemsArray()
	for i := range a {
		a[i] = 1 << 40
	}
	again, _ = s.ToSlice()
	z.Assert(alike(mine, again), "a sketch does not change with an array it handed out")
	o2 := newLongs(8, m)
	feedLongs(o2, keys(n2, 0, 0, 7))
	for i := 0; i < 3; i++ {
		s.Update(int64(i))
	}
	e := newLongs(8, m)
	e.Merge(o2)
	feedLongs(e, keys(9, 0, 0, 9))
	after, _ := o2.ToSlice()
	z.Assert(alike(before, after), "a merged sketch does not change when the target is updated")
	s.Reset()
	z.Assert(s.IsEmpty() && s.GetN() == 0 && s.GetNumRetained() == 0 && !s.IsEstimationMode(), "a reset sketch is empty")
	f := newLongs(k, m)
	sameSketch(longKind, s, f, "a reset sketch")
	feedLongs(s, ks)
	feedLongs(f, ks)
	sameSketch(longKind, s, f, "a reset sketch with new items")
	b1, _ := s.ToSlice()
	b2, _ := f.ToSlice()
	z.Assert(alike(b1, b2), "a reset sketch serializes like a new one")
}

func alike(a, b []byte) bool {
	ok := len(a) == len(b)
	for i := range a {
		if i < len(b) {
			ok = z.And(ok, a[i] == b[i])
		}
	}
	return ok
}

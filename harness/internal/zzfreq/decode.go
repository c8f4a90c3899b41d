package zzfreq

import (
	"strconv"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/frequencies"
	z "github.com/apache/datasketches-go/internal/zzsym"
)

// use goes through the accessors of a sketch that was read.
func use(s sketch, u int) {
	_ = s.empty()
	_ = s.length()
	z.Assert(s.capacity() >= 6, "the maximum capacity is one of a sketch")
	for i := 0; i <= u; i++ {
		_, err := s.lower(i)
		must(err, "lower bound")
		_, err = s.upper(i)
		must(err, "upper bound")
	}
	_, err := s.rows(3, true, false)
	must(err, "rows")
	_, err = s.bytes()
	must(err, "serialize")
	for i := 0; i <= u; i++ {
		must(s.update(i, 2), "update")
	}
}

func read(s sketch, b []byte, u int, refuse bool) {
	var r sketch
	var err error
	z.Bounded(1<<22, func() { r, err = s.read(b) })
	if err != nil {
		z.Cover("refused")
		return
	}
	z.Cover("accepted")
	if refuse {
		z.Assert(false, "a truncated image is refused")
	}
	use(r, u)
}

func blank(kind, u int) (sketch, *places) {
	z.FloatRand = z.FloatHalf
	p := arrange(u, 4, 0)
	p.loose = true
	if kind == 0 {
		return newLongs(3, 3, p), p
	}
	return newThings(3, 3, p), p
}

// Decode: n arbitrary bytes; with pre > 0 the first three bytes are those of a sketch of pre
// longs. Lengths and errors are below 2^16.
//
// zz: C26 q Decode 0 0 0
// zz: C26 q Decode 0 7 0
// zz: C26 q Decode 0 8 0
// zz: C26 q Decode 1 0 0
// zz: C26 q Decode 1 7 0
// zz: C26 q Decode 1 8 0
// zz: C26 q Decode 0 8 1 | covers=accepted,refused maxconc=600
// zz: C26 q Decode 1 8 1 | covers=accepted,refused maxconc=600
// zz: C26 q Decode 0 32 4 | covers=accepted,refused maxconc=600
// zz: C26 q Decode 1 32 4 | covers=accepted,refused maxconc=600
func Decode(kind, n, pre int) {
	z.Merging(false)
	s, _ := blank(kind, 3)
	b := z.Bytes("b", n)
	if pre != 0 {
		b[0], b[1], b[2] = byte(pre), 1, 10
		table(b)
	}
	if n > 11 { // a few numbers of items
		copy(b[8:12], [...]string{"\x00\x00\x00\x00", "\x01\x00\x00\x00", "\x00\x01\x00\x00", "\x00\x00\x00\x80", "\xff\xff\xff\xff"}[z.Choose("items", 5)])
	}
	for i := 18; i < n; i++ { // small weights
		if i&7 > 1 {
			b[i] = 0
		}
	}
	read(s, b, 3, false)
}

// table limits the sizes of tables declared in an image to a few.
func table(b []byte) {
	a := [...]byte{0, 3, 4, 16, 31, 62, 63, 64, 255}
	b[3], b[4] = a[z.Choose("max", len(a))], a[z.Choose("cur", len(a))]
}

// Corrupt: the image of a sketch of n items with one arbitrary byte in the range [lo,hi) or cut
// off there.
//
// zz: C26 q Corrupt 0 0 0 8 | covers=accepted,refused maxconc=300
// zz: C26 q Corrupt 1 0 0 8 | covers=accepted,refused maxconc=300
// zz: C26 q Corrupt 0 1 0 48 | covers=accepted,refused maxconc=300
// zz: C26 q Corrupt 1 1 0 48 | covers=accepted,refused maxconc=300
// zz: C26 q Corrupt 0 4 5 16 | covers=accepted,refused maxconc=300
// zz: C26 q Corrupt 1 4 5 16 | covers=accepted,refused maxconc=300
// zz: C26 q Corrupt 0 12 5 70 | covers=accepted,refused maxconc=300
// zz: C26 q Corrupt 1 12 5 70 | covers=accepted,refused maxconc=300
func Corrupt(kind, n, lo, hi int) {
	z.Merging(false)
	u := 5
	s, _ := blank(kind, u)
	for i := 0; i < n; i++ {
		must(s.update(i%u, int64(i)+1), "update")
	}
	b, err := s.bytes()
	must(err, "serialize")
	at := lo + z.Choose("at", hi-lo)
	if at >= len(b) {
		return
	}
	if z.Choose("cut", 2) == 1 {
		read(s, b[:at:at], u, true)
		return
	}
	if at == 3 || at == 4 {
		table(b)
	} else {
		b[at] = z.U8("byte")
	}
	read(s, b, u, false)
}

// BadText: texts with one field replaced.
//
// zz: C26 q BadText 0 | covers=accepted,refused
// zz: C26 q BadText 2 | covers=accepted,refused
func BadText(n int) {
	z.Merging(false)
	s, _ := blank(0, 5)
	for i := 0; i < n; i++ {
		must(s.update(i, int64(i)+1), "update")
	}
	t, err := s.(*longs).s.ToString()
	must(err, "text")
	var fields []string
	f := ""
	for i := 0; i < len(t); i++ {
		if t[i] == ',' {
			fields = append(fields, f)
			f = ""
		} else {
			f += t[i : i+1]
		}
	}
	vals := [...]int64{-1, 0, 1, 2, 3, 5, 7, 8, 16, 31, 64, 255, 1 << 31, 1 << 40, -1 << 63}
	at := z.Choose("at", len(fields))
	switch v := z.Choose("val", len(vals)+3); v {
	case 0:
		fields[at] = ""
	case 1:
		fields[at] = "x"
	case 2:
		fields = fields[:at]
	default:
		fields[at] = strconv.FormatInt(vals[v-3], 10)
	}
	t = ""
	for i, f := range fields {
		if i > 0 {
			t += ","
		}
		t += f
	}
	var r *frequencies.LongsSketch
	z.Bounded(1<<22, func() { r, err = frequencies.NewLongsSketchFromString(t) })
	if err != nil {
		z.Cover("refused")
		return
	}
	z.Cover("accepted")
	use(&longs{r, s.(*longs).p}, 5)
}

// Params: a sketch the constructor accepts can be used; sizes beyond reason are refused.
//
// zz: C19 q Params | covers=accepted,refused
func Params() {
	z.Merging(false)
	kind := z.Choose("kind", 2)
	a := [...]int{-1, 0, 2, 3, 4, 5, 7, 31, 62, 63, 64, 70}
	lgMax, lgCur := a[z.Choose("max", len(a))], a[z.Choose("cur", 7)]
	p := arrange(30, 3, 0)
	var s sketch
	var err error
	if kind == 0 {
		var l *frequencies.LongsSketch
		l, err = frequencies.NewLongsSketch(lgMax, lgCur)
		s = &longs{l, p}
	} else {
		var l *frequencies.ItemsSketch[int64]
		l, err = frequencies.NewFrequencyItemsSketch[int64](lgMax, lgCur, hasher{p}, common.ItemSketchLongSerDe{})
		s = &things{l, p}
	}
	if err != nil {
		z.Assert(lgMax > 30 || lgCur > max(lgMax, 3), "reasonable sizes are accepted")
		z.Cover("refused")
		return
	}
	es := stream(40, 30, 1, 0, 0, 0)
	feed(s, es)
	checkCap(s, es, 30, s.capacity(), min(s.capacity(), 1000), "sketch")
	z.Cover("accepted")
}

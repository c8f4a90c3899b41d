package zztuple

import (
	"bytes"

	z "github.com/apache/datasketches-go/internal/zzsym"
	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"
)

// usable: a sketch read from an image, if any, works.
func usable(b []byte, refuse bool) {
	z.Bounded(1<<23, func() {
		c, err := tuple.Decode[*seqSum](b, theta.DefaultSeed, readSeq)
		if err != nil {
			z.Cover("refused")
			z.Assert(c == nil, "an error comes without a sketch")
			return
		}
		z.Cover("read")
		z.Assert(!refuse, "a broken image is refused")
		z.Observe(uint64(c.NumRetained()))
		n := uint32(0)
		for range c.All() {
			n++
		}
		z.Assert(n <= c.NumRetained(), "no more entries are listed than counted")
		var w bytes.Buffer
		enc := tuple.NewEncoder[*seqSum](&w, writeSeq)
		must(enc.Encode(c), "encode")
	})
}

func usableAon(b []byte, refuse bool) {
	z.Bounded(1<<23, func() {
		c, err := tuple.DecodeArrayOfNumbersCompactSketch[int64](b, theta.DefaultSeed)
		if err != nil {
			z.Cover("refused")
			z.Assert(c == nil, "an error comes without a sketch")
			return
		}
		z.Cover("read")
		z.Assert(!refuse, "a broken image is refused")
		n := uint32(0)
		for range c.All() {
			n++
		}
		z.Assert(n <= c.NumRetained(), "no more entries are listed than counted")
		var w bytes.Buffer
		enc := tuple.NewArrayOfNumbersSketchEncoder[int64](&w)
		must(enc.Encode(c), "encode")
	})
}

// Broken: an image of n entries is cut, or a byte of it changed.
//
// zz: C26 q Broken 0 0 | covers=refused,read
// zz: C26 q Broken 0 1 | covers=refused,read
// zz: C26 q Broken 0 2 | covers=refused,read
// zz: C26 q Broken 1 0 | covers=refused,read
// zz: C26 q Broken 1 2 | covers=refused,read
func Broken(aon, n int) {
	z.Merging(false)
	presetSeed()
	use := usable
	var b []byte
	if aon == 0 {
		var m []kv
		for i := 0; i < n; i++ {
			m = append(m, kv{mix(uint64(i), 7) >> 1, uint64(i)})
		}
		if n == 1 {
			b = append([]byte{1, 3, 9, 1, 0, 1<<1 | 1<<3 | 1<<4, seedHash & 0xff, seedHash >> 8}, z.LE8(m[0].h)...)
			b = append(b, z.LE8(5)...)
		} else {
			b = enc(m, 1<<62, false)
		}
	} else {
		use = usableAon
		var m []kv2
		for i := 0; i < n; i++ {
			m = append(m, kv2{mix(uint64(i), 7) >> 1, int64(i), 3})
		}
		b = encAon(m, 1<<62, false, n == 0)
	}
	if z.Choose("how", 2) == 0 {
		use(b[:z.Choose("cut", len(b))], true)
		return
	}
	i := z.Choose("at", len(b))
	switch {
	case i == 0 || i == 5 || i >= 8+8*aon && i < 16+8*aon:
		b[i] = []byte{0, 1, 2, 3, 9, 127, 128, 255}[z.Choose("value", 8)]
	default:
		b[i] = z.U8("value")
	}
	use(b, false)
}

// Short: any string of n bytes.
//
// zz: C26 q Short 0 7 | covers=refused
// zz: C26 q Short 0 8 | covers=refused,read
// zz: C26 q Short 0 24 | covers=refused,read
// zz: C26 q Short 0 40 | covers=refused,read
// zz: C26 q Short 1 15 | covers=refused
// zz: C26 q Short 1 24 | covers=refused,read
// zz: C26 q Short 1 40 | covers=refused,read
func Short(aon, n int) {
	z.Merging(false)
	presetSeed()
	b := make([]byte, n)
	for i := range b {
		switch {
		case i == 6 && n > 8:
			b[i] = seedHash & 0xff
		case i == 7 && n > 8:
			b[i] = seedHash >> 8
		case aon == 1 && i == 5:
			b[i] = byte(z.Choose("values", 4)) * 85
		case aon == 0 && i == 0:
			b[i] = byte(z.Choose("longs", 5))
		case i == 8+8*aon:
			b[i] = []byte{0, 1, 2, 255}[z.Choose("n", 4)]
		case i == 11+8*aon:
			b[i] = byte(z.Choose("high", 2) * 255)
		case i > 8+8*aon && i < 11+8*aon:
		default:
			b[i] = z.U8("b")
		}
	}
	if aon == 0 {
		usable(b, false)
	} else {
		usableAon(b, false)
	}
}

// StringsShort: reading any string of bytes as a summary fails cleanly.
//
// zz: C26 q StringsShort 4 | covers=refused
// zz: C26 q StringsShort 9 | covers=refused,read
// zz: C26 q StringsShort 12 | covers=refused,read
func StringsShort(n int) {
	z.Merging(false)
	b := make([]byte, n)
	for i := range b {
		switch {
		case i == 4:
			b[i] = []byte{0, 1, 2, 127, 128, 255}[z.Choose("n", 6)]
		case i == 5:
			b[i] = byte(z.Choose("len", 4))
		case i == 8:
			b[i] = byte(z.Choose("top", 2) * 127)
		case i < 9:
		default:
			b[i] = byte(z.Choose("b", 3))
		}
	}
	z.Bounded(1<<20, func() {
		s, err := tuple.ArrayOfStringsSummaryReader(bytes.NewReader(b))
		t, err2 := tuple.ArrayOfStringsInlineSummaryReader(bytes.NewReader(b))
		z.Assert((err == nil) == (err2 == nil), "both readers agree")
		if err != nil {
			z.Cover("refused")
			return
		}
		z.Cover("read")
		var w, w2 bytes.Buffer
		must(tuple.ArrayOfStringsSummaryWriter(&w, s), "write")
		must(tuple.ArrayOfStringsInlineSummaryWriter(&w2, t), "write")
		z.Assert(bytes.Equal(w.Bytes(), w2.Bytes()), "both summaries agree")
		z.Assert(bytes.Equal(w.Bytes()[4:], b[4:w.Len()]), "what was read is written")
	})
}

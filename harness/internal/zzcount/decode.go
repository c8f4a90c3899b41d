package zzcount

import (
	"bytes"

	"github.com/apache/datasketches-go/count"
	z "github.com/apache/datasketches-go/internal/zzsym"
)

func reader() *count.CountMinSketch {
	z.SeededRand = true
	s, err := count.NewCountMinSketch(2, 3, seed)
	must(err)
	return s
}

// usable: a sketch read from an image, if any, works.
func usable(b []byte, refuse bool) {
	z.Bounded(1<<22, func() {
		r := reader()
		s, err := r.Deserialize(b, seed)
		if err != nil {
			z.Cover("refused")
			z.Assert(s == nil, "an error comes without a sketch")
			return
		}
		z.Cover("read")
		z.Assert(!refuse, "a broken image is refused")
		w := s.GetTotalWeight()
		e := s.GetEstimate(item(0))
		z.Observe(uint64(e))
		var buf bytes.Buffer
		must(s.Serialize(&buf))
		d, err := r.Deserialize(buf.Bytes(), seed)
		must(err)
		// counters without weight, which no stream has, are dropped
		z.Assert(z.Or(w == 0, z.And(d.GetTotalWeight() == w, d.GetEstimate(item(0)) == e)), "read again, it answers alike")
		must(s.Update(item(0), 5))
		z.Assert(s.GetTotalWeight() == w+5, "an update adds its weight")
		z.Assert(s.GetEstimate(item(0)) == e+5, "an update raises the estimate")
		z.Assert(r.GetTotalWeight() == 0, "the receiver is unchanged")
	})
}

// Broken: an image is cut, or a byte of it changed.
//
// zz: C26 q Broken 0 | covers=refused,read
// zz: C26 q Broken 1 | covers=refused,read
func Broken(n int) {
	z.Merging(false)
	s := reader()
	for i := 0; i < n; i++ {
		must(s.Update(item(i), 9))
	}
	var buf bytes.Buffer
	must(s.Serialize(&buf))
	b := buf.Bytes()
	if z.Choose("how", 2) == 0 {
		usable(b[:z.Choose("cut", len(b))], true)
		return
	}
	i := z.Choose("at", len(b))
	switch {
	case n == 0 && i >= 10 && i < 12:
		return // an empty sketch allocates what it declares
	case i >= 8 && i < 13:
		b[i] = []byte{0, 1, 2, 3, 50, 127, 128, 255}[z.Choose("value", 8)]
	case i >= 16:
		// counters that no stream has are not detected; they must stay usable
		b[i] ^= 1 << uint(z.Choose("bit", 8))
	default:
		b[i] = z.U8("value")
	}
	usable(b, false)
}

// Short: any string of n bytes.
//
// zz: C26 q Short 7 | covers=refused
// zz: C26 q Short 16 | covers=refused,read
// zz: C26 q Short 40 | covers=refused,read
func Short(n int) {
	z.Merging(false)
	var buf bytes.Buffer
	must(reader().Serialize(&buf))
	b := make([]byte, n)
	for i := range b {
		switch {
		case i == 8:
			b[i] = []byte{0, 1, 2, 3}[z.Choose("buckets", 4)]
		case i == 9:
			b[i] = byte(z.Choose("high", 2))
		case i == 10 || i == 11 && n < 24:
		case i == 11:
			b[i] = byte(z.Choose("top", 2) * 255)
		case i == 12:
			b[i] = []byte{0, 1, 2, 255}[z.Choose("hashes", 4)]
		case (i == 13 || i == 14) && n > 15:
			b[i] = buf.Bytes()[i]
		default:
			b[i] = z.U8("b")
		}
	}
	usable(b, false)
}

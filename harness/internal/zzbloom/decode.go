package zzbloom

import (
	"github.com/apache/datasketches-go/filters"
	z "github.com/apache/datasketches-go/internal/zzsym"
)

// usable: a filter read from an image, if any, works.
func usable(b []byte, refuse bool) {
	z.Bounded(1<<22, func() {
		f, err := filters.NewBloomFilterFromSlice(b)
		if err != nil {
			z.Cover("refused")
			z.Assert(f == nil, "an error comes without a filter")
			return
		}
		z.Cover("read")
		z.Assert(!refuse, "a broken image is refused")
		used := f.BitsUsed()
		z.Assert(used <= f.Capacity(), "no more bits are set than there are")
		z.Assert(f.IsEmpty() == (used == 0), "empty means no bit set")
		c, err := f.ToCompactSlice()
		must(err)
		g, err := filters.NewBloomFilterFromSlice(c)
		must(err)
		z.Assert(z.And(g.BitsUsed() == used, g.Capacity() == f.Capacity()), "read again, it is the same filter")
		if f.NumHashes() > 20 {
			return
		}
		must(f.UpdateUInt64(7))
		z.Assert(f.QueryUInt64(7), "an item added is found")
		z.Assert(f.BitsUsed() >= used, "an update clears no bit")
		must(f.Invert())
		must(f.Invert())
		z.Assert(f.QueryUInt64(7), "inverting twice changes nothing")
	})
}

// Broken: an image is cut, extended, or a byte of it changed.
//
// zz: C26 q Broken 0 | covers=refused,read
// zz: C26 q Broken 2 | covers=refused,read
func Broken(words int) {
	z.Merging(false)
	var w []uint64
	n := uint64(0)
	for i := 0; i < words; i++ {
		w = append(w, 0x8000400020001<<uint(i))
		n += 4
	}
	b := image(w, 3, seed, n)
	if words == 0 {
		f, err := filters.NewBloomFilterBySize(128, 3, filters.WithSeed(seed))
		must(err)
		b, err = f.ToCompactSlice()
		must(err)
	}
	switch z.Choose("how", 3) {
	case 0:
		usable(b[:z.Choose("cut", len(b))], true)
	case 1:
		usable(append(b, make([]byte, 1+z.Choose("more", 9))...), true)
	default:
		i := z.Choose("at", len(b))
		if words == 0 && i >= 17 && i < 23 {
			return // an empty filter allocates what it declares
		}
		x := z.U8("value")
		if i == 4 || i == 5 || i >= 8 {
			x = b[i] ^ 1<<uint(z.Choose("bit", 8))
		}
		b[i] = x
		usable(b, false)
	}
}

// Short: any string of n bytes.
//
// zz: C26 q Short 7 | covers=refused
// zz: C26 q Short 24 | covers=refused,read
// zz: C26 q Short 40 | covers=refused,read
func Short(n int) {
	z.Merging(false)
	b := make([]byte, n)
	for i := range b {
		switch {
		case i < 8 && i != 4 && i != 5 || i == 33:
			b[i] = z.U8("b")
		case i == 4:
			b[i] = byte(z.Choose("hashes", 4))
		case i == 16:
			b[i] = byte(z.Choose("words", 3))
		case i == 23 && n > 24:
			b[i] = byte(z.Choose("high", 3)) * 0x7f
		case i == 24 && n > 24:
			b[i] = byte(z.Choose("set", 4))
		}
	}
	usable(b, false)
}

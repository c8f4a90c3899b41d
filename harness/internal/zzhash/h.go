// Package zzhash: hashing is MurmurHash3 and typed updates are canonical.
package zzhash

import (
	"math"
	"math/bits"

	"github.com/apache/datasketches-go/cpc"
	"github.com/apache/datasketches-go/filters"
	"github.com/apache/datasketches-go/hll"
	"github.com/apache/datasketches-go/internal"
	z "github.com/apache/datasketches-go/internal/zzsym"
	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"
)

const (
	c1 = 0x87c37b91114253d5
	c2 = 0x4cf5ad432745937f
)

// ref is MurmurHash3_x64_128 of a sequence of 64-bit words (the last block zero padded) and
// a length in bytes, after the published reference.
func ref(words []uint64, length int, seed uint64) (uint64, uint64) {
	h1, h2 := seed, seed
	r := bits.RotateLeft64
	i := 0
	for ; i+1 < len(words) && (i+2)*8 <= length; i += 2 {
		h1 ^= r(words[i]*c1, 31) * c2
		h1 = (r(h1, 27)+h2)*5 + 0x52dce729
		h2 ^= r(words[i+1]*c2, 33) * c1
		h2 = (r(h2, 31)+h1)*5 + 0x38495ab5
	}
	if i+1 < len(words) {
		h2 ^= r(words[i+1]*c2, 33) * c1
	}
	if i < len(words) {
		h1 ^= r(words[i]*c1, 31) * c2
	}
	h1 ^= uint64(length)
	h2 ^= uint64(length)
	h1 += h2
	h2 += h1
	f := func(k uint64) uint64 {
		k ^= k >> 33
		k *= 0xff51afd7ed558ccd
		k ^= k >> 33
		k *= 0xc4ceb9fe1a85ec53
		return k ^ k>>33
	}
	h1 = f(h1)
	h2 = f(h2)
	h1 += h2
	h2 += h1
	return h1, h2
}

func wordsOf(b []byte, per int) []uint64 {
	var w []uint64
	for i := 0; i < len(b); i += per {
		v := uint64(0)
		for j := 0; j < per && i+j < len(b); j++ {
			v |= uint64(b[i+j]) << (8 * j)
		}
		w = append(w, v)
	}
	return w
}

// Bytes: the hash of n arbitrary bytes at an offset, any seed.
//
// zz: C27 q Bytes 0 100 0
// zz: C27 q Bytes 13 17 3
// zz: C27 t Bytes 101 300 5
func Bytes(lo, hi, off int) {
	n := lo + z.Choose("n", hi-lo+1)
	{
		seed := z.U64("seed")
		buf := z.Bytes("b", off+n+1)
		h1, h2 := internal.HashByteArrMurmur3(buf, off, n, seed)
		b := buf[off : off+n]
		r1, r2 := ref(wordsOf(b, 8), n, seed)
		z.Assert(z.And(h1 == r1, h2 == r2), "byte hash is MurmurHash3")
		z.Observe(h1)
	}
}

// Longs: the hash of an int64 slice is that of its little-endian bytes.
//
// zz: C27 q Longs 0 9 2
func Longs(lo, hi, off int) {
	n := lo + z.Choose("n", hi-lo+1)
	{
		seed := z.U64("seed")
		var k []int64
		var w []uint64
		for i := 0; i < off+n+1; i++ {
			v := z.U64("k")
			k = append(k, int64(v))
			if i >= off && i < off+n {
				w = append(w, v)
			}
		}
		h1, h2 := internal.HashInt64SliceMurmur3(k, off, n, seed)
		r1, r2 := ref(w, 8*n, seed)
		z.Assert(z.And(h1 == r1, h2 == r2), "int64 slice hash is MurmurHash3 of its bytes")
		z.Observe(h2)
	}
}

// Ints: the hash of an int32 slice is that of its little-endian bytes.
//
// zz: C27 q Ints 0 13 1
func Ints(lo, hi, off int) {
	n := lo + z.Choose("n", hi-lo+1)
	{
		seed := z.U64("seed")
		var k []int32
		var b []byte
		for i := 0; i < off+n+1; i++ {
			v := z.U32("k")
			k = append(k, int32(v))
			if i >= off && i < off+n {
				b = append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
			}
		}
		h1, h2 := internal.HashInt32SliceMurmur3(k, off, n, seed)
		r1, r2 := ref(wordsOf(b, 8), 4*n, seed)
		z.Assert(z.And(h1 == r1, h2 == r2), "int32 slice hash is MurmurHash3 of its bytes")
		z.Observe(h2)
	}
}

// Chars: the char hash mixes 4 chars per word and counts two bytes per char.
//
// zz: C27 q Chars 1 25 2
func Chars(lo, hi, off int) {
	n := lo + z.Choose("n", hi-lo+1)
	{
		seed := z.U64("seed")
		buf := z.Bytes("b", off+n+1)
		h1, h2 := internal.HashCharSliceMurmur3(buf, off, n, seed)
		r1, r2 := ref(wordsOf(buf[off:off+n], 4), 2*n, seed)
		z.Assert(z.And(h1 == r1, h2 == r2), "char hash is the library's Murmur variant")
		z.Observe(h1)
	}
}

const seed = theta.DefaultSeed

// SeedHash: the 16-bit seed hash is the low half-word of the Murmur hash of the seed.
//
// zz: C27 q SeedHash
func SeedHash() {
	s := z.U64("seed")
	sh, err := internal.ComputeSeedHash(int64(s))
	r, _ := ref([]uint64{s}, 8, 0)
	z.Assert(z.Iff(err == nil, uint16(r) != 0), "a seed is refused exactly when its hash is zero")
	if err == nil {
		z.Assert(uint16(sh) == uint16(r), "seed hash is the low 16 bits of the Murmur hash of the seed")
	}
}

func must(err error) {
	if err != nil {
		z.Assert(false, "unexpected error: "+err.Error())
	}
}

// dbl is the canonical form of a double: one zero, one NaN.
func dbl(v float64) uint64 {
	if v == 0 {
		return 0
	}
	if v != v {
		return 0x7ff8000000000000
	}
	return math.Float64bits(v)
}

// Theta: each typed update of an arbitrary value enters the hash of its canonical bytes.
//
// zz: C27 q Theta 0
// zz: C27 q Theta 1
func Theta(tup int) {
	z.HashFree = true
	kind := z.Choose("kind", 13)
	v := z.U64("v")
	le4 := func(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }
	var key []byte
	chars := false
	f64 := math.Float64frombits(v)
	f32 := math.Float32frombits(uint32(v))
	switch kind {
	case 0, 1:
		key = z.LE8(v)
	case 2:
		key = z.LE8(uint64(uint32(v)))
	case 3:
		key = le4(uint32(v))
	case 4:
		key = le4(uint32(uint16(v)))
	case 5:
		key = le4(uint32(int32(int16(v))))
	case 6:
		key = le4(uint32(uint8(v)))
	case 7:
		key = le4(uint32(int32(int8(v))))
	case 8:
		key = z.LE8(dbl(f64))
	case 9:
		key = z.LE8(dbl(float64(f32)))
	case 10:
		key = z.LE8(v)[:3]
	case 11:
		key = []byte{byte(v), byte(v >> 8), byte(v >> 16)}
		chars = true
	case 12:
		key = z.LE8(v)
	}
	h := z.U64("h") | 1<<20
	h2 := z.U64("h2")
	k := 0
	if chars {
		k = 1
	}
	z.PresetHash(k, key, seed, h, h2)
	var err error
	var got []uint64
	if tup == 0 {
		s, e := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(5))
		must(e)
		switch kind {
		case 0:
			err = s.UpdateUint64(v)
		case 1, 12:
			err = s.UpdateInt64(int64(v))
		case 2:
			err = s.UpdateUint32(uint32(v))
		case 3:
			err = s.UpdateInt32(int32(v))
		case 4:
			err = s.UpdateUint16(uint16(v))
		case 5:
			err = s.UpdateInt16(int16(v))
		case 6:
			err = s.UpdateUint8(uint8(v))
		case 7:
			err = s.UpdateInt8(int8(v))
		case 8:
			err = s.UpdateFloat64(f64)
		case 9:
			err = s.UpdateFloat32(f32)
		case 10:
			err = s.UpdateBytes(key)
		case 11:
			err = s.UpdateString(string(key))
		}
		for e := range s.All() {
			got = append(got, e)
		}
	} else {
		s, e := tuple.NewUpdateSketch[*cnt, uint64](func() *cnt { return &cnt{} }, tuple.WithUpdateSketchLgK(5))
		must(e)
		switch kind {
		case 0:
			err = s.UpdateUint64(v, 1)
		case 1, 12:
			err = s.UpdateInt64(int64(v), 1)
		case 2:
			err = s.UpdateUint32(uint32(v), 1)
		case 3:
			err = s.UpdateInt32(int32(v), 1)
		case 4:
			err = s.UpdateUint16(uint16(v), 1)
		case 5:
			err = s.UpdateInt16(int16(v), 1)
		case 6:
			err = s.UpdateUint8(uint8(v), 1)
		case 7:
			err = s.UpdateInt8(int8(v), 1)
		case 8:
			err = s.UpdateFloat64(f64, 1)
		case 9:
			err = s.UpdateFloat32(f32, 1)
		case 10:
			err = s.UpdateBytes(key, 1)
		case 11:
			err = s.UpdateString(string(key), 1)
		}
		for e := range s.All() {
			got = append(got, e)
		}
	}
	if h>>1 >= theta.MaxTheta {
		z.Assert(len(got) == 0, "a hash at the maximum is not retained")
		return
	}
	must(err)
	z.Assert(len(got) == 1, "one hash is retained")
	z.Assert(got[0] == h>>1, "the update hashes the canonical bytes of its value")
}

type cnt struct{ n uint64 }

func (c *cnt) Update(v uint64)      { c.n += v }
func (c *cnt) Reset()               { c.n = 0 }
func (c *cnt) Clone() tuple.Summary { d := *c; return &d }

var _ = cpc.NewCpcSketch
var _ = filters.NewBloomFilterBySize
var _ = hll.NewHllSketch

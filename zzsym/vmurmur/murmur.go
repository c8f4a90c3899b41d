// Package murmur3 stands in for github.com/twmb/murmur3 (whose amd64 version is assembly):
// a pure Go MurmurHash3 x64 128, or an arbitrary function when zzsym.HashFree is set.
package murmur3

import (
	"math/bits"

	"github.com/apache/datasketches-go/internal/zzsym"
)

const (
	c1 = 0x87c37b91114253d5
	c2 = 0x4cf5ad432745937f
)

func fmix(k uint64) uint64 {
	k ^= k >> 33
	k *= 0xff51afd7ed558ccd
	k ^= k >> 33
	k *= 0xc4ceb9fe1a85ec53
	k ^= k >> 33
	return k
}

func le(b []byte) uint64 {
	v := uint64(0)
	for i := len(b) - 1; i >= 0; i-- {
		v = v<<8 | uint64(b[i])
	}
	return v
}

// Ref is MurmurHash3_x64_128 with separate seeds for the two halves.
func Ref(h1, h2 uint64, data []byte) (uint64, uint64) {
	n := len(data)
	for len(data) >= 16 {
		k1, k2 := le(data[:8]), le(data[8:16])
		data = data[16:]
		k1 *= c1
		k1 = bits.RotateLeft64(k1, 31)
		k1 *= c2
		h1 ^= k1
		h1 = bits.RotateLeft64(h1, 27)
		h1 += h2
		h1 = h1*5 + 0x52dce729
		k2 *= c2
		k2 = bits.RotateLeft64(k2, 33)
		k2 *= c1
		h2 ^= k2
		h2 = bits.RotateLeft64(h2, 31)
		h2 += h1
		h2 = h2*5 + 0x38495ab5
	}
	if len(data) > 8 {
		k2 := le(data[8:])
		k2 *= c2
		k2 = bits.RotateLeft64(k2, 33)
		k2 *= c1
		h2 ^= k2
		data = data[:8]
	}
	if len(data) > 0 {
		k1 := le(data)
		k1 *= c1
		k1 = bits.RotateLeft64(k1, 31)
		k1 *= c2
		h1 ^= k1
	}
	h1 ^= uint64(n)
	h2 ^= uint64(n)
	h1 += h2
	h2 += h1
	h1 = fmix(h1)
	h2 = fmix(h2)
	h1 += h2
	h2 += h1
	return h1, h2
}

func SeedSum128(seed1, seed2 uint64, data []byte) (uint64, uint64) {
	if zzsym.HashFree {
		return zzsym.AbsHash(0, data, seed1)
	}
	return Ref(seed1, seed2, data)
}

func SeedSum64(seed uint64, data []byte) uint64 {
	h, _ := SeedSum128(seed, seed, data)
	return h
}

func SeedStringSum64(seed uint64, s string) uint64 { return SeedSum64(seed, []byte(s)) }
func SeedStringSum128(s1, s2 uint64, s string) (uint64, uint64) {
	return SeedSum128(s1, s2, []byte(s))
}
func Sum128(data []byte) (uint64, uint64) { return SeedSum128(0, 0, data) }
func Sum64(data []byte) uint64            { return SeedSum64(0, data) }

// Package zzbloom: Bloom filters.
package zzbloom

import (
	"math"
	"math/bits"

	"github.com/apache/datasketches-go/filters"
	z "github.com/apache/datasketches-go/internal/zzsym"
)

func must(err error) {
	if err != nil {
		z.Assert(false, "unexpected error: "+err.Error())
	}
}

func image(words []uint64, hashes int, seed uint64, nset uint64) []byte {
	b := []byte{4, 1, 21, 0, byte(hashes), byte(hashes >> 8), 0, 0}
	b = append(b, z.LE8(seed)...)
	b = append(b, z.LE8(uint64(len(words)))...)
	b = append(b, z.LE8(nset)...)
	for _, w := range words {
		b = append(b, z.LE8(w)...)
	}
	return b
}

const seed = 31

// arb is a filter whose bits are arbitrary.
func arb(words, hashes int) (filters.BloomFilter, []uint64) {
	var w []uint64
	for i := 0; i < words; i++ {
		w = append(w, z.U64("w"))
	}
	f, err := filters.NewBloomFilterFromSlice(image(w, hashes, seed, ^uint64(0)))
	must(err)
	return f, w
}

func anySet(w []uint64) bool {
	r := uint64(0)
	for _, v := range w {
		r |= v
	}
	return r != 0
}

// checkBits asserts that f holds exactly the bits w, by its image.
func checkBits(f filters.BloomFilter, w []uint64, hashes int, label string) {
	pop := uint64(0)
	for _, v := range w {
		pop += uint64(bits.OnesCount64(v))
	}
	z.Assert(f.BitsUsed() == pop, label+": bits used is the number of bits set")
	b, err := f.ToCompactSlice()
	must(err)
	z.Assert(f.IsEmpty() == !anySet(w), label+": empty means no bit set")
	if !anySet(w) {
		want := image(nil, hashes, seed, 0)[:24]
		want[0], want[3], want[16] = 3, 4, byte(len(w))
		eqBytes(b, want, label+": empty image")
		return
	}
	eqBytes(b, image(w, hashes, seed, pop), label+": image holds the bits")
}

func eqBytes(a, b []byte, label string) {
	z.Assert(len(a) == len(b), label+" (length)")
	ok := true
	for i := range a {
		ok = z.And(ok, a[i] == b[i])
	}
	z.Assert(ok, label)
}

// mask is the set of bits an item with hashes h0, h1 stands for.
func mask(words, hashes int, h0, h1 uint64) []uint64 {
	m := make([]uint64, words)
	for i := 1; i <= hashes; i++ {
		x := (h0 + uint64(i)*h1) >> 1 % uint64(64*words)
		for j := range m {
			m[j] |= z.Ite(x>>6 == uint64(j), 1<<(x&63), 0)
		}
	}
	return m
}

func covers(w, m []uint64) bool {
	ok := true
	for i := range w {
		ok = z.And(ok, w[i]&m[i] == m[i])
	}
	return ok
}

var pats = [][2]uint64{{0xfedcba9876543210, 0x123456789abcdef1}, {2, 0}, {^uint64(0), ^uint64(0)}, {126, 128}, {1 << 63, 2}, {0x8000000000000081, 0xff}}

// preset gives an item hashes: arbitrary ones, or one of npat fixed patterns.
func preset(key []byte, npat int) (uint64, uint64) {
	var h0, h1 uint64
	if npat == 0 {
		h0, h1 = z.U64("h0"), z.U64("h1")
		z.Assume(h0 != seed)
	} else {
		p := pats[z.Choose("pattern", npat)]
		h0, h1 = p[0], p[1]
	}
	z.PresetHash(2, key, seed, h0, 0)
	z.PresetHash(2, key, h0, h1, 0)
	return h0, h1
}

// Update: adding an item to an arbitrary filter sets exactly its bits; membership answers are
// exactly "all bits set"; query-and-update does both.
//
// zz: C23 q Update 1 1 0 0
// zz: C23 q Update 1 2 1 0
// zz: C23 q Update 1 3 1 0
// zz: C23 q Update 1 3 0 6
// zz: C23 q Update 2 2 0 6
// zz: C23 q Update 3 4 1 6
// zz: C23 t Update 1 5 0 0
// zz: C23 t Update 2 1 0 0
// zz: C23 t Update 2 2 1 0
// zz: C23 t Update 9 7 1 6
func Update(words, hashes, qau, npat int) {
	z.HashFree = true
	f, w := arb(words, hashes)
	a, b := []byte{1}, []byte{2, 3}
	a0, a1 := preset(a, npat)
	b0, b1 := preset(b, npat)
	ma, mb := mask(words, hashes, a0, a1), mask(words, hashes, b0, b1)
	had := f.QuerySlice(b)
	z.Assert(had == covers(w, mb), "an item is reported exactly when all its bits are set")
	if qau == 1 {
		z.Assert(f.QueryAndUpdateSlice(a) == covers(w, ma), "query-and-update reports membership before")
	} else {
		must(f.UpdateSlice(a))
	}
	for i := range w {
		w[i] |= ma[i]
	}
	z.Assert(f.QuerySlice(a), "an added item is reported")
	z.Assert(f.QueryString(string(a)), "an added item is reported as a string")
	z.Assert(f.QuerySlice(b) == covers(w, mb), "other items are reported exactly when all their bits are set")
	checkBits(f, w, hashes, "updated")
	img, err := f.ToCompactSlice()
	must(err)
	g, err := filters.NewBloomFilterFromSlice(img)
	must(err)
	z.Assert(g.QuerySlice(a), "an added item is reported after a round trip")
	z.Assert(z.And(g.NumHashes() == uint16(hashes), z.And(g.Seed() == seed, g.Capacity() == uint64(64*words))), "parameters survive a round trip")
	checkBits(g, w, hashes, "decoded")
	must(g.Reset())
	z.Assert(!g.QuerySlice(a), "nothing is reported after reset")
	z.Assert(g.IsEmpty(), "empty after reset")
	z.Assert(f.QuerySlice(a), "the source of a copy is unaffected")
}

// Fresh: a new filter of arbitrary bit count reports what was added.
//
// zz: C23 q Fresh 130 3
// zz: C23 q Fresh 128 2
// zz: C23 q Fresh 64 65535
// zz: C23 q Fresh 1 1
func Fresh(bits, hashes int) {
	z.HashFree = true
	f, err := filters.NewBloomFilterBySize(uint64(bits), uint16(hashes), filters.WithSeed(seed))
	must(err)
	words := (bits + 63) / 64
	z.Assert(f.Capacity() == uint64(64*words), "capacity is rounded up to whole words")
	z.Assert(z.And(f.IsEmpty(), f.BitsUsed() == 0), "a new filter is empty")
	a := []byte{1}
	if hashes > 100 {
		z.PresetHash(2, a, seed, 12345678901, 0)
		z.PresetHash(2, a, 12345678901, 998877665544332211, 0)
	} else {
		preset(a, 6)
	}
	z.Assert(!f.QuerySlice(a), "a new filter reports nothing")
	must(f.UpdateSlice(a))
	z.Assert(f.QuerySlice(a), "an added item is reported")
	z.Assert(f.QueryAndUpdateSlice(a), "an added item is reported by query-and-update")
	z.Assert(z.And(f.BitsUsed() >= 1, f.BitsUsed() <= uint64(hashes)), "at most one bit per hash")
}

// Algebra: union, intersection and inversion are bitwise on arbitrary filters.
//
// zz: C23 q Algebra 1
// zz: C23 q Algebra 2
// zz: C23 t Algebra 5
func Algebra(words int) {
	f, w := arb(words, 3)
	g, v := arb(words, 3)
	switch z.Choose("op", 4) {
	case 0:
		must(f.Union(g))
		for i := range w {
			w[i] |= v[i]
		}
	case 1:
		must(f.Intersect(g))
		for i := range w {
			w[i] &= v[i]
		}
	case 2:
		must(f.Invert())
		for i := range w {
			w[i] = ^w[i]
		}
	case 3:
		must(f.Union(f))
	}
	checkBits(f, w, 3, "result")
	checkBits(g, v, 3, "other operand")
}

// Incompatible filters are refused and left unchanged.
//
// zz: C23 q Incompatible
func Incompatible() {
	f, w := arb(2, 3)
	words, hashes, sd := 2, 3, uint64(seed)
	switch z.Choose("diff", 3) {
	case 0:
		words = 1 + 2*z.Choose("w", 2)
	case 1:
		h := z.U16("hashes")
		z.Assume(z.And(h != 3, h != 0))
		hashes = int(h)
	case 2:
		sd = z.U64("seed")
		z.Assume(sd != seed)
	}
	var v []uint64
	for i := 0; i < words; i++ {
		v = append(v, z.U64("v"))
	}
	g, err := filters.NewBloomFilterFromSlice(image(v, hashes, sd, ^uint64(0)))
	must(err)
	z.Assert(!f.IsCompatible(g), "filters of different parameters are incompatible")
	z.Assert(f.Union(g) != nil, "union is refused")
	z.Assert(f.Intersect(g) != nil, "intersection is refused")
	checkBits(f, w, 3, "after refusal")
}

// Typed: each typed update is found by the same typed query, and by the query of its
// canonical bytes; empty strings and arrays are ignored.
//
// zz: C23 q Typed 2 2
func Typed(words, hashes int) {
	z.HashFree = true
	f, err := filters.NewBloomFilterBySize(uint64(64*words), uint16(hashes), filters.WithSeed(seed))
	must(err)
	v, u := z.U64("v"), z.U64("u")
	x, y := math.Float64frombits(v), math.Float64frombits(u)
	canon := v
	if x == 0 {
		canon = 0
	} else if x != x {
		canon = 0x7ff8000000000000
	}
	key := z.LE8(v)
	qau := z.Bool("qau")
	kind := z.Choose("kind", 6)
	switch kind {
	case 0:
		key = z.LE8(canon)
	case 1, 2:
		key = append(key, z.LE8(u)...)
	}
	preset(key, 6)
	was := false
	switch kind {
	case 0:
		if qau {
			was = f.QueryAndUpdateFloat64(x)
		} else {
			must(f.UpdateFloat64(x))
		}
		z.Assert(f.QueryFloat64(x), "a float64 is found")
		if x == 0 {
			z.Assert(z.And(f.QueryFloat64(0), f.QueryFloat64(math.Copysign(0, -1))), "both zeros are found")
		}
		if x != x {
			z.Assert(f.QueryFloat64(math.Float64frombits(0xfff8000000000123)), "any NaN is found")
		}
	case 1:
		if qau {
			was = f.QueryAndUpdateInt64Array([]int64{int64(v), int64(u)})
		} else {
			must(f.UpdateInt64Array([]int64{int64(v), int64(u)}))
		}
		z.Assert(f.QueryInt64Array([]int64{int64(v), int64(u)}), "an int64 array is found")
	case 2:
		if qau {
			was = f.QueryAndUpdateFloat64Array([]float64{x, y})
		} else {
			must(f.UpdateFloat64Array([]float64{x, y}))
		}
		z.Assert(f.QueryFloat64Array([]float64{x, y}), "a float64 array is found")
	case 3:
		if qau {
			was = f.QueryAndUpdateString(string(key))
		} else {
			must(f.UpdateString(string(key)))
		}
		z.Assert(f.QueryString(string(key)), "a string is found")
	case 4:
		if qau {
			was = f.QueryAndUpdateSlice(key)
		} else {
			must(f.UpdateSlice(key))
		}
	case 5:
		must(f.UpdateString(""))
		must(f.UpdateInt64Array(nil))
		must(f.UpdateFloat64Array(nil))
		z.Assert(!f.QueryAndUpdateString(""), "empty string")
		z.Assert(!f.QueryAndUpdateInt64Array(nil), "empty array")
		z.Assert(!f.QueryAndUpdateFloat64Array(nil), "empty array")
		z.Assert(f.IsEmpty(), "empty inputs are ignored")
		return
	}
	z.Assert(!was, "query-and-update of an empty filter reports absence")
	z.Assert(f.QuerySlice(key), "the canonical bytes are found")
}

// Ints: integers, whose hash is computed by real code, are found after being added, by either
// integer type, and coincide with the hash of their bytes.
//
// zz: C23 q Ints 1 2
// zz: C23 q Ints 1 3
// zz: C23 t Ints 2 3
func Ints(words, hashes int) {
	f, err := filters.NewBloomFilterBySize(uint64(64*words), uint16(hashes), filters.WithSeed(z.U64("seed")))
	must(err)
	v := z.U64("v")
	was := false
	switch z.Choose("op", 4) {
	case 0:
		must(f.UpdateUInt64(v))
	case 1:
		must(f.UpdateInt64(int64(v)))
	case 2:
		was = f.QueryAndUpdateUInt64(v)
	case 3:
		was = f.QueryAndUpdateInt64(int64(v))
	}
	z.Assert(!was, "absent before")
	switch z.Choose("q", 3) {
	case 0:
		z.Assert(f.QueryUInt64(v), "found as uint64")
	case 1:
		z.Assert(f.QueryInt64(int64(v)), "found as int64")
	case 2:
		z.Assert(f.QuerySlice(z.LE8(v)), "found as bytes")
	}
}

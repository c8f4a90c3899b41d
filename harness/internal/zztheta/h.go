// Package zztheta: harnesses over the public API of theta.
package zztheta

import (
	z "github.com/apache/datasketches-go/internal/zzsym"
	"github.com/apache/datasketches-go/theta"
)

// mix is a fixed scrambler used for concrete prefills.
func mix(i, salt uint64) uint64 {
	x := (i+1)*0x9E3779B97F4A7C15 + salt*0xD1B54A32D192ED03
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	return x
}

const seed = 9001

func must(err error, what string) {
	z.Assert(err == nil, what)
}

// upd feeds item whose (abstract) 63-bit hash is h.
func upd(s *theta.QuickSelectUpdateSketch, id uint64, h uint64) error {
	z.PresetHash(0, z.LE8(id), seed, h<<1, 0)
	return s.UpdateInt64(int64(id))
}

func okErr(err error) bool {
	return err == nil || err == theta.ErrHashExceedsTheta || err == theta.ErrZeroHashValue || err == theta.ErrDuplicateKey
}

// checkSet asserts that s is exactly the set of seen hashes below theta.
func checkSet(s theta.Sketch, seen []uint64, k int, startTheta uint64) {
	th := s.Theta64()
	z.Assert(th <= startTheta, "theta never above its start")
	found := make([]bool, len(seen))
	dup, ok := false, true
	for e := range s.All() {
		in := false
		for i, h := range seen {
			eq := h == e
			in = z.Or(in, eq)
			dup = z.Or(dup, z.And(eq, found[i]))
			found[i] = z.Or(found[i], eq)
		}
		ok = z.And(ok, z.And(in, z.And(e != 0, e < th)))
	}
	z.Assert(ok, "every retained hash was fed, is nonzero and below theta")
	z.Assert(!dup, "no hash is retained twice")
	n := uint64(s.NumRetained())
	want := uint64(0)
	for i, h := range seen {
		first := true
		for j := 0; j < i; j++ {
			first = z.And(first, seen[j] != h)
		}
		live := z.And(h != 0, h < th)
		want += z.B2U(z.And(first, live))
		z.Assert(z.Implies(live, found[i]), "every fed hash below theta is retained")
	}
	z.Assert(n == want, "retained count is the number of distinct fed hashes below theta")
	z.Assert(z.Implies(th < startTheta, n >= uint64(k)), "theta only drops when k hashes stay")
}

// The low bits of a hash decide the table slot (6 bits at lgK=5) and the probe stride
// (7 bits above). symHash is a hash whose low 13 bits are one of npat patterns chosen to
// collide with each other and with prefilled slots, and whose upper 50 bits are arbitrary.
func symHash(npat int) uint64 {
	pats := [...]uint64{0x0005, 0x0045, 0x1fc5, 0x0000, 0x003f, 0x0fc0}
	hi := z.Nondet("hi", 50)
	return hi<<13 | pats[z.Choose("pat", npat)]
}

func prefill(s *theta.QuickSelectUpdateSketch, n, salt int, base uint64) []uint64 {
	var seen []uint64
	for i := 0; i < n; i++ {
		h := mix(uint64(i), uint64(salt)) >> 1
		if salt == 2 { // one long probe chain
			h = h&^0x1fff | 0x45
		}
		seen = append(seen, h)
		z.Assert(okErr(upd(s, base+uint64(i), h)), "update returns nil, duplicate, or below-theta")
	}
	return seen
}

// Update: prefill pre fixed hashes, then feed sym arbitrary ones (mode 0: all 63 bits
// arbitrary; mode n>0: n low-bit patterns), in a sketch of nominal size 32.
//
// zz: C01 q Update 0 1 1 0 0
// zz: C01 q Update 20 1 1 0 0
// zz: C01 q Update 0 3 1 3 0
// zz: C01 q Update 31 2 1 2 0
// zz: C01 q Update 59 2 1 2 0 | covers=estimation
// zz: C01 q Update 60 1 2 3 0 | covers=estimation
// zz: C01 q Update 87 2 1 2 0 | covers=estimation
func Update(pre, sym, salt, mode, trim int) {
	z.HashFree = true
	z.Merging(mode == 0)
	s, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(5))
	must(err, "new")
	start := s.Theta64()
	z.Assert(s.IsEmpty(), "a new sketch is empty")
	seen := prefill(s, pre, salt, 1)
	id := uint64(1000)
	for i := 0; i < sym; i++ {
		var h uint64
		if mode == 0 {
			h = z.U64("h") >> 1
		} else {
			h = symHash(mode)
		}
		seen = append(seen, h)
		before := s.Theta64()
		z.Assert(okErr(upd(s, id, h)), "update returns nil, duplicate, or below-theta")
		z.Assert(s.Theta64() <= before, "theta is monotone")
		z.Assert(!s.IsEmpty(), "not empty after an update")
		id++
	}
	if trim != 0 {
		s.Trim()
		z.Assert(s.NumRetained() <= 32, "at most k after Trim")
	}
	checkSet(s, seen, 32, start)
	z.Observe(s.Theta64())
	z.Observe(uint64(s.NumRetained()))
	if s.IsEstimationMode() {
		z.Cover("estimation")
	}
}

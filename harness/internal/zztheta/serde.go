package zztheta

import (
	"bytes"

	z "github.com/apache/datasketches-go/internal/zzsym"
	"github.com/apache/datasketches-go/theta"
)

// same asserts that s has the given content.
func same(s theta.Sketch, es []uint64, th uint64, empty, ordered bool) {
	z.Assert(int(s.NumRetained()) == len(es), "same number of hashes")
	i, ok := 0, true
	for e := range s.All() {
		if i < len(es) {
			ok = z.And(ok, e == es[i])
		} else {
			ok = false
		}
		i++
	}
	z.Assert(i == len(es), "iteration yields every hash")
	z.Assert(ok, "same hashes in the same order")
	z.Assert(s.Theta64() == th, "same theta")
	z.Assert(s.IsEmpty() == empty, "same emptiness")
	z.Assert(s.IsOrdered() == ordered, "same ordering")
	sh, err := s.SeedHash()
	must(err, "seed hash")
	z.Assert(sh == seedHash, "same seed hash")
}

// stops asserts that iteration can stop early.
func stops(s theta.Sketch, es []uint64) {
	for k := 0; k < len(es); k += 3 {
		i := 0
		for e := range s.All() {
			z.Assert(e == es[i], "same hashes in the same order")
			if i == k {
				break
			}
			i++
		}
	}
}

func roundTrip(s *theta.CompactSketch, es []uint64, th uint64, empty, ordered bool, forms int) {
	same(s, es, th, empty, ordered)
	for c := 0; c < forms; c++ {
		var buf bytes.Buffer
		enc := theta.NewEncoder(&buf, c == 1)
		must(enc.Encode(s), "encode")
		b := buf.Bytes()
		z.Assert(len(b) == s.SerializedSizeBytes(c == 1), "announced size")
		d, err := theta.Decode(b, seed)
		must(err, "decode")
		if err == nil {
			same(d, es, th, empty, ordered)
		}
		w, err := theta.WrapCompactSketch(b, seed)
		must(err, "wrap")
		if err == nil {
			same(w, es, th, empty, ordered)
			stops(w, es)
			same(theta.NewCompactSketch(w, false), es, th, empty, ordered)
		}
		dec := theta.NewDecoder(seed)
		d, err = dec.Decode(bytes.NewReader(b))
		must(err, "decode from a reader")
		if err == nil {
			same(d, es, th, empty, ordered)
		}
		_, err = theta.Decode(b, seed+1)
		z.Assert(empty || err != nil, "another seed is refused")
		_, err = theta.WrapCompactSketch(b, seed+1)
		z.Assert(empty || err != nil, "another seed is refused")
	}
	m, err := s.MarshalBinary()
	must(err, "marshal")
	d, err := theta.Decode(m, seed)
	must(err, "decode")
	same(d, es, th, empty, ordered)
	same(s, es, th, empty, ordered)
}

// Packed: n ascending hashes whose largest gap needs exactly b bits, for every b.
//
// zz: C04 q Packed 1 1 63
// zz: C04 q Packed 2 1 63
// zz: C04 q Packed 8 1 63
// zz: C04 q Packed 11 1 63
// zz: C04 t Packed 3 1 63
// zz: C04 t Packed 7 1 63
// zz: C04 t Packed 16 1 62
// zz: C04 t Packed 17 1 62
// zz: C04 t Packed 23 1 60
// zz: C04 o Packed 257 5 5
// zz: C04 t Packed 257 5 40
func Packed(n, lo, hi int) {
	presetSeed()
	b := uint(lo + z.Choose("bits", hi-lo+1))
	head := uint(0)
	for 1<<head < n {
		head++
	}
	top := 0 // which gap is the widest
	if n > 2 && b > 1 {
		top = z.Choose("top", 2) * (n - 1)
	}
	es := make([]uint64, n)
	prev := uint64(0)
	for i := range es {
		w := b
		if i != top && w > 62-head {
			w = 62 - head
		}
		d := z.Nondet("gap", int(w))
		if i == top {
			if b > 1 {
				d = d>>1&(1<<(b-1)-1) | 1<<(b-1)
			} else {
				d = 1
			}
		} else {
			z.Assume(d != 0)
		}
		prev += d
		es[i] = prev
	}
	th := theta.MaxTheta
	if z.Choose("est", 2) == 1 {
		th = z.Nondet("theta", 63)
		z.Assume(th < theta.MaxTheta)
	}
	z.Assume(prev < th)
	s, err := theta.Decode(v3(es, th, true, seedHash), seed)
	must(err, "decode")
	roundTrip(s, es, th, false, true, 2)
	z.Observe(uint64(s.SerializedSizeBytes(true)))
	_ = n
}

// Unordered and update-sketch sources.
//
// zz: C04 q Loose 0
// zz: C04 q Loose 1
// zz: C04 q Loose 2
// zz: C04 q Loose 5
func Loose(n int) {
	presetSeed()
	th := z.Nondet("theta", 63)
	z.Assume(th > 0)
	es := make([]uint64, n)
	for i := range es {
		es[i] = z.Nondet("e", 63)
		z.Assume(es[i] != 0)
		z.Assume(es[i] < th)
	}
	if n == 0 {
		z.Assume(th < theta.MaxTheta)
	}
	s, err := theta.Decode(v3(es, th, false, seedHash), seed)
	must(err, "decode")
	roundTrip(s, es, th, false, n <= 1, 2)
}

// FromUpdate: compact forms of an update sketch hold its hashes and survive serialization.
//
// zz: C04 q FromUpdate 0 0 10
// zz: C04 q FromUpdate 1 0 10
// zz: C04 q FromUpdate 3 0 10
// zz: C04 q FromUpdate 2 12 5
// zz: C04 t FromUpdate 2 40 10
func FromUpdate(sym, pre, p10 int) {
	presetSeed()
	z.Merging(false)
	s, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(5), theta.WithUpdateSketchP(float32(p10)/10))
	must(err, "new")
	prefill(s, pre, 3, 1)
	for i := 0; i < sym; i++ {
		z.Assert(okErr(upd(s, uint64(900+i), symHash(2))), "update")
	}
	var es []uint64
	for e := range s.All() {
		es = append(es, e)
	}
	c := s.Compact(false)
	roundTrip(c, es, s.Theta64(), s.IsEmpty(), s.IsOrdered(), 2-n01(pre+sym > 1))
	o := s.Compact(true)
	roundTrip(o, sorted(es), s.Theta64(), s.IsEmpty(), true, 2-n01(pre+sym > 1))
}

// Legacy: serial versions 1 and 2 as written by older libraries.
//
// zz: C04 q Legacy 0
// zz: C04 q Legacy 2
func Legacy(n int) {
	presetSeed()
	th := z.Nondet("theta", 63)
	z.Assume(th > 0)
	es := make([]uint64, n)
	for i := range es {
		es[i] = z.Nondet("e", 63)
		z.Assume(es[i] < th)
		if i > 0 {
			z.Assume(es[i] > es[i-1])
		}
	}
	kind := z.Choose("kind", 4)
	b := v3(es, th, true, seedHash)
	empty := n == 0
	switch kind {
	case 0:
		b[1] = 1
		empty = z.And(empty, th == theta.MaxTheta)
	case 1:
		b[1], b[0] = 2, 3
		empty = z.And(empty, th == theta.MaxTheta)
	case 2:
		b = append(append([]byte{}, b[:16]...), b[24:]...)
		b[1], b[0] = 2, 2
		th = theta.MaxTheta
	case 3:
		z.Assume(n == 0)
		b = b[:8]
		b[1], b[0] = 2, 1
		th = theta.MaxTheta
	}
	d, err := theta.Decode(b, seed)
	must(err, "decode")
	same(d, es, th, empty, true)
	w, err := theta.WrapCompactSketch(b, seed)
	must(err, "wrap")
	same(w, es, th, empty, true)
}

func n01(b bool) int {
	if b {
		return 1
	}
	return 0
}

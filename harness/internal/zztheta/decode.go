package zztheta

import (
	z "github.com/apache/datasketches-go/internal/zzsym"
	"github.com/apache/datasketches-go/theta"
)

// probe uses every accessor of a decoded sketch.
func probe(s theta.Sketch, n int) {
	cnt := 0
	for e := range s.All() {
		_ = e
		cnt++
	}
	z.Assert(cnt == int(s.NumRetained()), "iteration yields NumRetained hashes")
	z.Assert(cnt <= 8*n, "no more hashes than the input can hold")
	_ = s.IsEmpty()
	_ = s.IsOrdered()
	_ = s.IsEstimationMode()
	_ = s.Theta64()
	_, err := s.SeedHash()
	must(err, "seed hash")
}

// Bytes decodes and wraps n arbitrary bytes, of the given serial version or any (0).
//
// zz: C05 q Bytes 0 0
// zz: C05 q Bytes 7 0
// zz: C05 q Bytes 8 0
// zz: C05 q Bytes 12 0
// zz: C05 q Bytes 16 0
// zz: C05 t Bytes 23 0
// zz: C05 t Bytes 24 0
// zz: C05 q Bytes 33 3
// zz: C05 q Bytes 33 2
// zz: C05 q Bytes 33 1
// zz: C05 q Bytes 18 4 | maxconc=400
// zz: C05 t Bytes 22 4 | maxconc=400
// zz: C05 t Bytes 48 3
// zz: C05 t Bytes 40 2
// zz: C05 t Bytes 40 1
// zz: C05 t Bytes 30 4 | maxconc=800
// zz: C05 t Bytes 75 4 | maxconc=2000
func Bytes(n, ver int) {
	presetSeed()
	b := z.Bytes("b", n)
	if ver != 0 {
		b[1], b[2] = byte(ver), 3
	}
	c, err := theta.Decode(b, seed)
	if err == nil {
		z.Cover("accepted")
		probe(c, n)
	}
	w, err2 := theta.WrapCompactSketch(b, seed)
	z.Assert((err == nil) == (err2 == nil), "decoding and wrapping accept the same inputs")
	if err2 == nil {
		probe(w, n)
	}
}

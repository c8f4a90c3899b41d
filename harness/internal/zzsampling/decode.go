package zzsampling

import (
	"bytes"

	"github.com/apache/datasketches-go/internal"
	z "github.com/apache/datasketches-go/internal/zzsym"
	"github.com/apache/datasketches-go/sampling"
)

// readReservoir reads b, which must not be accepted if bad, and uses the sketch.
func readReservoir(b []byte, bad bool) {
	z.Bounded(1<<22, func() {
		z.Coin = z.CoinZero
		s, err := sampling.NewReservoirItemsSketchFromSlice[int64](b, serde)
		if err != nil {
			z.Cover("refused")
			return
		}
		z.Cover("accepted")
		z.Assert(!bad, "a truncated image is refused")
		z.Assert(s.K() >= 2, "k of a sketch that was read is at least 2")
		n := s.N()
		z.Assert(n >= 0, "n of a sketch that was read is not negative")
		z.Assert(s.NumSamples() == len(s.Samples()), "number of samples")
		z.Assert(int64(s.NumSamples()) == min(n, int64(s.K())), "a sketch that was read holds min(n, k) samples")
		_, err = s.ToSlice(serde)
		must(err, "serialize")
		if n < 1<<47 {
			if n <= int64(s.K()) {
				_, err = s.EstimateSubsetSum(func(x int64) bool { return true })
				must(err, "subset sum")
			}
			must(s.Update(7), "update")
			z.Assert(s.N() == n+1, "n after an update")
		}
	})
}

func readReservoirUnion(b []byte, bad bool) {
	z.Bounded(1<<22, func() {
		z.Coin = z.CoinZero
		u, err := sampling.NewReservoirItemsUnionFromSlice[int64](b, serde)
		if err != nil {
			z.Cover("refused")
			return
		}
		z.Cover("accepted")
		z.Assert(!bad, "a truncated image is refused")
		z.Assert(u.MaxK() >= 2, "the maximum k of a union that was read is at least 2")
		r, err := u.Result()
		must(err, "result")
		if r != nil {
			z.Assert(r.K() <= u.MaxK(), "k of the union is at most the maximum")
			z.Assert(int64(r.NumSamples()) == min(r.N(), int64(r.K())), "the union holds min(n, k) samples")
			if r.N() > 1<<47 {
				return
			}
		}
		must(u.Update(7), "update")
	})
}

// damaged puts an arbitrary byte into the image at a position of [lo,hi) or cuts it there.
func damaged(b []byte, lo, hi int) ([]byte, bool) {
	at := lo + z.Choose("at", hi-lo)
	if at >= len(b) {
		z.Assume(false)
	}
	if z.Choose("cut", 2) == 1 {
		return b[:at:at], true
	}
	if few {
		b[at] = [8]byte{0, 1, 2, 0x3f, 0x7f, 0x80, 0xf0, 0xff}[z.Choose("byte", 8)]
	} else {
		b[at] = z.U8("byte")
	}
	return b, false
}

// few has damaged bytes take only some values.
var few bool

// Reservoirs: the image of a reservoir sketch of n items, or of a union of it, with one arbitrary byte.
//
// zz: C26 q Reservoirs 3 0 0 | covers=accepted,refused
// zz: C26 q Reservoirs 3 2 0 | covers=accepted,refused
// zz: C26 q Reservoirs 3 7 0 | covers=accepted,refused
// zz: C26 q Reservoirs 3 0 1 | covers=accepted,refused
// zz: C26 q Reservoirs 3 2 1 | covers=accepted,refused
// zz: C26 q Reservoirs 3 7 1 | covers=accepted,refused
func Reservoirs(k, n, union int) {
	z.Merging(false)
	z.Coin = z.CoinZero
	s := reservoirOf(k, sampling.ResizeX8)
	for i := 0; i < n; i++ {
		must(s.Update(int64(i)), "update")
	}
	if union == 0 {
		b, err := s.ToSlice(serde)
		must(err, "serialize")
		readReservoir(damaged(b, 0, 40))
		return
	}
	u := unionOf(k + 1)
	must(u.UpdateSketch(s), "update")
	b, err := u.ToSlice(serde)
	must(err, "serialize")
	readReservoirUnion(damaged(b, 0, 48))
}

// ReservoirBytes: n arbitrary bytes, the first three of a reservoir sketch or union when fixed.
//
// zz: C26 q ReservoirBytes 7 0 0
// zz: C26 q ReservoirBytes 8 0 0
// zz: C26 q ReservoirBytes 8 1 0 | covers=accepted,refused
// zz: C26 q ReservoirBytes 16 1 0 | covers=refused
// zz: C26 q ReservoirBytes 24 1 0 | covers=accepted,refused maxconc=300
// zz: C26 q ReservoirBytes 8 1 1 | covers=accepted,refused
// zz: C26 q ReservoirBytes 24 1 1 | covers=refused maxconc=300
func ReservoirBytes(n, fixed, union int) {
	z.Merging(false)
	b := z.Bytes("b", n)
	if fixed != 0 {
		b[0], b[1] = 0xc1, 2
		if n > 8 || z.Choose("long", 2) == 1 {
			b[0] = 0xc2
		}
		b[2] = byte(internal.FamilyEnum.ReservoirItems.Id)
		if union == 1 {
			b[0], b[2] = 0x41, byte(internal.FamilyEnum.ReservoirUnion.Id)
		}
		if n > 8 {
			k := [6]byte{0, 1, 2, 3, 200, 255}[z.Choose("k", 6)]
			b[4], b[5], b[6] = k, 0, 0
			b[7] = [2]byte{0, 200}[z.Choose("high", 2)]
			if union == 1 {
				b[8], b[9], b[10] = 0xc2, byte(1+z.Choose("ver", 2)), byte(internal.FamilyEnum.ReservoirItems.Id)
				b[12], b[13], b[14], b[15] = [3]byte{1, 2, 5}[z.Choose("k2", 3)], 0, 0, 0
			}
		}
	}
	if n >= 8 && b[1] == 1 {
		// the size codes of version 1
		c := [10]uint16{0, 1, 1 << 11, 3<<11 | 5, 7 << 11, 12<<11 | 2047, 30<<11 | 2047, 30<<11 | 2048, 31 << 11, 65535}[z.Choose("code", 10)]
		b[4], b[5] = byte(c), byte(c>>8)
	}
	if union == 1 {
		readReservoirUnion(b, false)
	} else {
		readReservoir(b, false)
	}
}

// ---- VarOpt

func readVarOpt(b []byte, bad bool) {
	z.Bounded(1<<22, func() {
		z.Coin, z.FloatRand = z.CoinZero, z.FloatHalf
		s, err := sampling.DecodeVarOptItemsSketch[int64](b, serde)
		if err != nil {
			z.Cover("refused")
			return
		}
		z.Cover("accepted")
		z.Assert(!bad, "a truncated image is refused")
		useVarOpt(s)
	})
}

func useVarOpt(s *varopt) {
	z.Assert(s.K() >= 1, "k of a sketch that was read is at least 1")
	z.Assert(s.N() >= 0, "n of a sketch that was read is not negative")
	items, w := samples(s)
	z.Assert(len(items) == s.NumSamples(), "the number of samples agrees with iteration")
	z.Assert(int64(len(items)) == min(s.N(), int64(s.K())), "a sketch that was read holds min(n, k) samples")
	for _, x := range w {
		z.Assert(z.And(x > 0, x <= 1.7976931348623157e308), "weights are positive and finite")
	}
	var buf bytes.Buffer
	e := sampling.NewVarOptItemsSketchEncoder[int64](&buf, serde)
	must(e.Encode(s), "encode")
	if s.N() < 1<<47 {
		n := s.N()
		if s.Update(7, 1) == nil {
			z.Assert(s.N() == n+1, "n after an update")
		}
		z.Assert(s.NumSamples() <= s.K(), "number of samples after an update")
	}
}

func readVarOptUnion(b []byte, bad bool) {
	z.Bounded(1<<22, func() {
		z.Coin, z.FloatRand = z.CoinZero, z.FloatHalf
		u, err := sampling.DecodeVarOptItemsUnion[int64](b, serde)
		if err != nil {
			z.Cover("refused")
			return
		}
		z.Cover("accepted")
		z.Assert(!bad, "a truncated image is refused")
		if r, err := u.Result(); err == nil {
			z.Cover("result")
			_, _ = samples(r)
			z.Assert(r.N() >= 0, "n of a union that was read is not negative")
		}
		s := varoptOf(2, sampling.ResizeX8)
		must(s.Update(7, 1), "update")
		_ = u.Update(s)
		_, _ = u.Result()
	})
}

// VarOpts: the image of a VarOpt sketch of n items, or of a union of it, with one arbitrary byte.
//
// zz: C26 q VarOpts 3 0 0 0 16 | covers=accepted,refused
// zz: C26 q VarOpts 3 2 0 0 60 | covers=accepted,refused
// zz: C26 q VarOpts 3 7 0 0 24 | covers=accepted,refused
// zz: C26 q VarOpts 3 7 0 24 80 | covers=accepted,refused
// zz: C26 q VarOpts 3 7 1 48 110 | covers=accepted,refused
// zz: C26 q VarOpts 3 0 1 0 16 | covers=accepted,refused
// zz: C26 q VarOpts 3 2 1 0 90 | covers=accepted,refused
// zz: C26 q VarOpts 3 7 1 0 32 | covers=accepted,refused
// zz: C26 q VarOpts 3 7 1 32 48 | covers=accepted,refused
func VarOpts(k, n, union, lo, hi int) {
	z.Merging(false)
	few = lo == 24 || lo >= 48 || n == 0
	script(0)
	s := varoptOf(k, sampling.ResizeX8)
	for i := 0; i < n; i++ {
		must(s.Update(int64(i), weight(2, i)), "update")
	}
	if union == 0 {
		readVarOpt(damaged(encode(s), lo, hi))
		return
	}
	u := varoptUnion(k + 2)
	must(u.Update(s), "update")
	readVarOptUnion(damaged(encodeUnion(u), lo, hi))
}

// VarOptBytes: n arbitrary bytes, the preamble of a VarOpt sketch of pre longs when fixed.
//
// zz: C26 q VarOptBytes 7 0
// zz: C26 q VarOptBytes 8 0 | covers=refused
// zz: C26 q VarOptBytes 8 1 | covers=accepted,refused
// zz: C26 t VarOptBytes 24 3 | covers=refused maxconc=300
// zz: C26 q VarOptBytes 40 3 | covers=accepted,refused maxconc=300
// zz: C26 q VarOptBytes 32 4 | covers=refused maxconc=300
// zz: C26 t VarOptBytes 40 4 | covers=accepted,refused maxconc=300
func VarOptBytes(n, pre int) {
	z.Merging(false)
	b := z.Bytes("b", n)
	if n >= 8 {
		b[5], b[6] = 0, 0
		b[4] = [6]byte{0, 1, 2, 3, 200, 255}[z.Choose("k", 6)]
		b[7] = [3]byte{0, 127, 200}[z.Choose("high", 3)]
	}
	if pre != 0 {
		b[0] = byte(pre) | byte(z.Choose("rf", 4)<<6)
		b[1], b[2] = 2, byte(internal.FamilyEnum.VarOptItems.Id)
		if n >= 24 {
			if n == 40 && pre == 4 {
				for i := 24; i < 30; i++ {
					b[i] = 0
				}
				v := [3]byte{0, 0x3f, 0xff}[z.Choose("weights", 3)]
				for i := 30; i < 40; i++ {
					b[i] = v
				}
			}
			b[17], b[18], b[21], b[22] = 0, 0, 0, 0
			b[19] = [2]byte{0, 255}[z.Choose("h", 2)]
		}
	}
	readVarOpt(b, false)
}

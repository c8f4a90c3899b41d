package zztdigest

import (
	"bytes"
	"encoding/binary"
	"math"

	"github.com/apache/datasketches-go/internal"
	z "github.com/apache/datasketches-go/internal/zzsym"
	"github.com/apache/datasketches-go/tdigest"
)

// read reads b with both decoders, which must not accept it if bad, and uses the digest.
func read(b []byte, bad bool) {
	z.Bounded(1<<22, func() {
		d, err := tdigest.DecodeDouble(b)
		dec := tdigest.NewDoubleDecoder()
		e, err2 := dec.Decode(bytes.NewReader(b))
		z.Assert((err == nil) == (err2 == nil), "the decoders accept the same images")
		if err != nil {
			z.Cover("refused")
			return
		}
		z.Cover("accepted")
		z.Assert(!bad, "a truncated image is refused")
		for _, d := range []*tdigest.Double{d, e} {
			z.Assert(d.K() >= 10, "k of a digest that was read is at least 10")
			w := d.TotalWeight()
			z.Assert(w < 1<<63, "weight of a digest that was read")
			z.Assert(d.IsEmpty() == (w == 0), "emptiness")
			lo, hi := 0.0, 0.0
			if w > 0 {
				lo, err = d.MinValue()
				must(err, "min")
				hi, err = d.MaxValue()
				must(err, "max")
				z.Assert(z.And(z.And(lo >= -math.MaxFloat64, lo <= hi), hi <= math.MaxFloat64), "range of a digest that was read")
			}
			_, err := tdigest.EncodeDouble(d, true)
			must(err, "encode")
			switch z.Choose("then", 3) {
			case 0:
				must(d.Update(5), "update")
				z.Assert(d.TotalWeight() == w+1, "weight after an update")
			case 1:
				if w > 0 && few {
					q := quantile(d, 0.5)
					z.Assert(lo <= q && q <= hi, "a quantile is within the range")
					q = quantile(d, 0.99)
					z.Assert(lo <= q && q <= hi, "a quantile is within the range")
				}
			case 2:
				if w > 0 && few {
					for _, v := range []float64{lo, 3.5, hi} {
						r := rank(d, v)
						z.Assert(r >= 0 && r <= 1, "a rank is within 0..1")
					}
				}
			}
			if !few {
				break
			}
		}
	})
}

// few has damaged bytes take only some values.
var few bool

func damaged(b []byte, lo, hi int) ([]byte, bool) {
	at := lo + z.Choose("at", hi-lo)
	if at >= len(b) {
		z.Assume(false)
	}
	if z.Choose("cut", 2) == 1 {
		return b[:at:at], true
	}
	if few {
		b[at] = [9]byte{0, 1, 2, 0x3f, 0x40, 0x7f, 0x80, 0xf0, 0xff}[z.Choose("byte", 9)]
	} else {
		b[at] = z.U8("byte")
	}
	return b, false
}

// Digests: the image of a digest of n values with one damaged byte.
//
// zz: C26 q Digests 0 0 0 8 | covers=accepted,refused
// zz: C26 q Digests 1 0 0 16 | covers=accepted,refused
// zz: C26 q Digests 3 0 0 16 | covers=accepted,refused
// zz: C26 q Digests 3 0 16 48 | covers=accepted,refused
// zz: C26 q Digests 3 1 0 16 | covers=accepted,refused
// zz: C26 q Digests 3 1 16 80 | covers=accepted,refused
func Digests(n, buffered, lo, hi int) {
	z.Merging(false)
	few = true
	d := digest(10)
	for i := 0; i < n; i++ {
		if buffered == 1 && i == 1 {
			rank(d, 0)
		}
		must(d.Update(base(i)), "update")
	}
	b, err := tdigest.EncodeDouble(d, true)
	must(err, "encode")
	read(damaged(b, lo, hi))
}

// DigestBytes: n arbitrary bytes, with the family and version of a digest when fixed.
//
// zz: C26 q DigestBytes 7 0 | covers=refused
// zz: C26 q DigestBytes 8 0 | covers=accepted,refused
// zz: C26 q DigestBytes 8 1 | covers=accepted,refused
// zz: C26 q DigestBytes 16 1 | covers=accepted,refused
// zz: C26 q DigestBytes 32 1 | covers=refused
func DigestBytes(n, fixed int) {
	z.Merging(false)
	b := z.Bytes("b", n)
	if fixed != 0 {
		b[1], b[2] = 1, byte(internal.FamilyEnum.TDigest.Id)
	}
	if n >= 8 {
		b[3] = [4]byte{0, 9, 10, 255}[z.Choose("k", 4)]
		b[4] = [2]byte{0, 255}[z.Choose("k2", 2)]
	}
	if n == 32 {
		few = true
		b[0], b[5] = 2, 0
		for i := 8; i < 32; i++ {
			b[i] = 0
		}
		for i := 8; i < 16; i++ {
			b[i] = [4]byte{0, 1, 2, 0xff}[z.Choose("count", 4)]
			if i%4 == 0 {
				if z.Choose("large", 2) == 1 {
					b[i+1], b[i+2] = b[i], b[i]
				} else {
					i += 1
				}
				i += 2
			}
		}
	}
	read(b, false)
}

// Compat: an image in one of the formats of the reference implementation, with one damaged byte.
//
// zz: C26 q Compat 1 | covers=accepted,refused
// zz: C26 q Compat 2 | covers=accepted,refused
func Compat(format int) {
	z.Merging(false)
	few = true
	b := compat(format, 0, 9, 4, []float64{1, 5, 8}, []float64{2, 6, 3})
	read(damaged(b, 0, len(b)))
}

func compat(format int, lo, hi, k float64, means, weights []float64) []byte {
	k += 100
	var w bytes.Buffer
	put := func(v any) { must(binary.Write(&w, binary.BigEndian, v), "write") }
	put(uint32(format))
	put(lo)
	put(hi)
	if format == 1 {
		put(k)
		put(uint32(len(means)))
		for i := range means {
			put(weights[i])
			put(means[i])
		}
	} else {
		put(float32(k))
		put(uint32(0))
		put(uint16(len(means)))
		for i := range means {
			put(float32(weights[i]))
			put(float32(means[i]))
		}
	}
	return w.Bytes()
}

// Foreign: digests of the reference implementation, whose outer centroids can have any weight.
//
// zz: C25 q Foreign 1 0
// zz: C25 q Foreign 2 0
// zz: C25 q Foreign 1 1
// zz: C25 q Foreign 2 1
func Foreign(format, merged int) {
	z.Merging(false)
	w := func(name string) float64 { return [5]float64{1, 2, 3, 4, 7}[z.Choose(name, 5)] }
	weights := []float64{w("first"), w("middle"), w("last")}
	m := z.Choose("means", 2)
	means := [2][]float64{{1, 5, 8}, {2, 2, 2}}[m]
	lo, hi := -3.0, 9.0
	if weights[0] == 1 {
		lo = means[0]
	}
	if weights[2] == 1 {
		hi = means[2]
	}
	b := compat(format, lo, hi, 0, means, weights)
	d, err := tdigest.DecodeDouble(b)
	must(err, "decode")
	n := uint64(weights[0] + weights[1] + weights[2])
	z.Assert(d.K() == 100, "k is read")
	if merged == 1 {
		e := digest(100)
		must(e.Update(4), "update")
		must(e.Merge(d), "merge")
		d, n = e, n+1
		lo, hi = min(lo, 4), max(hi, 4)
	}
	z.Assert(d.TotalWeight() == n, "the weight is read")
	a, err := d.MinValue()
	must(err, "min")
	c, err := d.MaxValue()
	must(err, "max")
	z.Assert(a == lo && c == hi, "minimum and maximum are read")
	if z.Choose("what", 2) == 0 {
		v := number("q", []float64{lo, means[1], hi})
		r := rank(d, v)
		z.Assert(z.And(r >= 0, r <= 1), "ranks are between 0 and 1")
		prev := 0.0
		for i := 0; i <= 48; i++ {
			x := lo + (hi-lo)/48*float64(i)
			y := rank(d, x)
			z.Assert(y >= prev-1e-12, "ranks do not decrease with the value")
			z.Assert(z.Implies(v < x, r <= y+1e-12), "ranks do not decrease with the value")
			prev = y
		}
		return
	}
	prev := lo
	for i := 0; i <= 120; i++ {
		q := quantile(d, float64(i)/120)
		z.Assert(q >= lo && q <= hi, "quantiles are between the minimum and the maximum")
		z.Assert(q >= prev-1e-9*math.Abs(prev), "quantiles do not decrease with the rank")
		prev = q
	}
	for i := 0; i <= int(n); i++ {
		q := quantile(d, float64(i)/float64(n))
		z.Assert(q >= lo && q <= hi, "quantiles are between the minimum and the maximum")
	}
}

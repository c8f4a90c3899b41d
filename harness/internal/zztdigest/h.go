// Package zztdigest: t-digest.
package zztdigest

import (
	"bytes"
	"math"

	z "github.com/apache/datasketches-go/internal/zzsym"
	"github.com/apache/datasketches-go/tdigest"
)

func must(err error, what string) {
	if err != nil {
		z.Assert(false, what+" fails: "+err.Error())
	}
}

func digest(k int) *tdigest.Double {
	d, err := tdigest.NewDouble(uint16(k))
	must(err, "new digest")
	return d
}

// base are the concrete values of a stream.
func base(i int) float64 { return [12]float64{3, -1.5, 7, 3, 0, 1e10, 2.25, -8, 3, 5, 1e-9, -8}[i%12] }

// number is a value at, or between, those of a list; magnitudes are at most 1e300.
func number(name string, among []float64) float64 {
	v := z.AmongF64(name, append(append([]float64{}, among...), -1e300, 1e300))
	z.Assume(z.And(v >= -1e300, v <= 1e300))
	return v
}

// count counts the values below, and at most, v.
func count(all []float64, v float64) (below, upto int) {
	for _, x := range all {
		if x < v {
			below++
		}
		if x <= v {
			upto++
		}
	}
	return
}

func extremes(all []float64) (lo, hi float64) {
	lo, hi = all[0], all[0]
	for _, x := range all {
		if x < lo {
			lo = x
		}
		if x > hi {
			hi = x
		}
	}
	return
}

// conserved asserts weight, minimum and maximum.
func conserved(d *tdigest.Double, all []float64) {
	z.Assert(d.TotalWeight() == uint64(len(all)), "the total weight is the number of values fed")
	z.Assert(d.IsEmpty() == (len(all) == 0), "emptiness")
	a, err := d.MinValue()
	b, err2 := d.MaxValue()
	if len(all) == 0 {
		z.Assert(err != nil && err2 != nil, "an empty digest has no minimum and no maximum")
		return
	}
	must(err, "min")
	must(err2, "max")
	lo, hi := extremes(all)
	z.Assert(a == lo, "the minimum is exact")
	z.Assert(b == hi, "the maximum is exact")
}

func rank(d *tdigest.Double, v float64) float64 {
	r, err := d.Rank(v)
	must(err, "rank")
	return r
}

func quantile(d *tdigest.Double, r float64) float64 {
	q, err := d.Quantile(r)
	must(err, "quantile")
	return q
}

// exact asserts that a digest of few values answers exactly.
func exact(d *tdigest.Double, all []float64, what int) {
	n := float64(len(all))
	switch what {
	case 0: // rank of a value fed
		v := all[z.Choose("item", len(all))]
		below, upto := count(all, v)
		r := rank(d, v)
		if len(all) == 1 {
			z.Assert(r == 0.5, "rank of the only value")
		} else {
			z.Assert(r == (float64(below)+float64(upto-below)/2)/n, "rank of a value fed is the middle of its places")
		}
	case 1: // rank of any value
		v := number("q", all)
		below, upto := count(all, v)
		r := rank(d, v)
		z.Assert(z.And(r >= 0, r <= 1), "ranks are between 0 and 1")
		z.Assert(z.And(r >= (float64(below)-0.5)/n, r <= (float64(upto)+0.5)/n), "rank is within half a place")
	case 2: // quantile of any rank
		r := z.F64("rank")
		q, err := d.Quantile(r)
		if !(r >= 0 && r <= 1) {
			z.Assert(err != nil, "a rank outside of 0..1 is refused")
			return
		}
		must(err, "quantile")
		below, upto := count(all, q)
		w := r * n
		z.Assert(upto > below, "the quantile of few values is one of them")
		z.Assert(z.And(float64(below) <= w, w <= float64(upto)), "the quantile has its rank")
	}
}

// Exact: n values of which s arbitrary go into two digests, with queries or serialization in
// between, which are merged.
//
// zz: C25 q Exact 10 1 1 0
// zz: C25 q Exact 10 3 1 0
// zz: C25 q Exact 10 6 1 0
// zz: C25 q Exact 10 1 0 1
// zz: C25 q Exact 10 2 0 1
// zz: C25 q Exact 10 4 0 1
// zz: C25 q Exact 10 7 0 1
// zz: C25 q Exact 200 12 0 1
// zz: C25 q Exact 10 1 1 2
// zz: C25 q Exact 10 3 1 2
// zz: C25 q Exact 10 4 0 2
// zz: C25 q Exact 10 7 0 2
// zz: C25 q Exact 200 12 0 2
// zz: C25 t Exact 200 2 2 0
// zz: C25 t Exact 10 5 1 2 | budget=600
// zz: C25 t Exact 200 15 0 1
// zz: C25 t Exact 200 15 0 2
func Exact(k, n, s, what int) {
	z.Merging(false)
	var all []float64
	for i := 0; i < n-s; i++ {
		all = append(all, base(i))
	}
	for i := 0; i < s; i++ {
		all = append(all, number("v", all))
	}
	// the arbitrary values come first, in the middle or last
	r := [3]int{0, n / 2, n - s}[z.Choose("turn", 3)]
	all = append(append([]float64{}, all[r:]...), all[:r]...)
	cut := [4]int{0, 1, n / 2, n}[z.Choose("cut", 4)]
	a, b := digest(k), digest(k)
	feed(a, all[:cut])
	feed(b, all[cut:])
	if cut > 0 {
		touch(&a, "a")
	}
	if cut < n {
		touch(&b, "b")
		must(a.Merge(b), "merge")
		conserved(b, all[cut:])
	} else {
		z.Assert(a.Merge(b) != nil, "merging an empty digest is refused")
		conserved(b, nil)
	}
	conserved(a, all)
	exact(a, all, what)
	conserved(a, all)
}

// feed updates the digest, with a query after the first value sometimes.
func feed(d *tdigest.Double, vs []float64) {
	for i, v := range vs {
		conserved(d, vs[:i])
		must(d.Update(v), "update")
	}
}

// touch leaves the digest, or has it compress, or replaces it with a copy read from an image.
func touch(d **tdigest.Double, name string) {
	switch c := z.Choose("touch-"+name, 4); c {
	case 1:
		(*d).Rank(0)
		quantile(*d, 0.5)
	case 2, 3:
		b, err := tdigest.EncodeDouble(*d, c == 3)
		must(err, "encode")
		*d, err = tdigest.DecodeDouble(b)
		must(err, "decode")
	}
}

// heavy is stream number p of n values: distinct, with ties, skewed, or descending.
func heavy(p, n int) []float64 {
	var vs []float64
	for i := 0; i < n; i++ {
		j := i * 7 % n
		if n%7 == 0 {
			j = i * 5 % n
		}
		switch p {
		case 0:
			vs = append(vs, float64(j))
		case 1:
			vs = append(vs, float64(j*j%5))
		case 2:
			vs = append(vs, math.Ldexp(1-2*float64(j%2), j%40))
		case 3:
			vs = append(vs, float64(-i))
		case 4:
			vs = append(vs, 1/float64(3+j))
		}
	}
	return vs
}

func sum(vs []float64) (t float64) {
	for _, v := range vs {
		t += v
	}
	return
}

// Heavy: values that share centroids: the answers stay within range and in order.
//
// zz: C25 q Heavy 10 9 4 0 | covers=heavy
// zz: C25 q Heavy 10 16 9 0 | covers=heavy
// zz: C25 q Heavy 10 40 13 0 | covers=heavy
// zz: C25 q Heavy 10 230 40 0 | covers=heavy
// zz: C25 q Heavy 10 9 4 1 | covers=heavy
// zz: C25 q Heavy 10 16 9 1 | covers=heavy
// zz: C25 q Heavy 10 40 13 1 | covers=heavy
// zz: C25 q Heavy 10 230 40 1 | covers=heavy
// zz: C25 t Heavy 10 700 300 0
// zz: C25 t Heavy 10 700 300 1
// zz: C25 t Heavy 30 500 200 0
// zz: C25 t Heavy 30 500 200 1
// zz: C25 t Heavy 100 1200 200 0
// zz: C25 t Heavy 100 1200 200 1
func Heavy(k, n, cut, what int) {
	z.Merging(false)
	p := z.Choose("stream", 5)
	distinct := p != 1 && p != 2
	all := heavy(p, n)
	a, b := digest(k), digest(k)
	for _, v := range all[:cut] {
		must(a.Update(v), "update")
	}
	for _, v := range all[cut:] {
		must(b.Update(v), "update")
	}
	touch(&a, "a")
	touch(&b, "b")
	must(a.Merge(b), "merge")
	conserved(a, all)
	conserved(b, all[cut:])
	z.Cover("heavy")
	z.Assert(a.SerializedSizeBytes(false) <= 32+16*(2*k+30), "the number of centroids is bounded")
	lo, hi := extremes(all)
	if what == 0 {
		v := number("q", []float64{lo, all[0], hi})
		r := rank(a, v)
		z.Assert(z.And(r >= 0, r <= 1), "ranks are between 0 and 1")
		if v < lo {
			z.Assert(r == 0, "rank of a value below all")
		}
		if v > hi {
			z.Assert(r == 1, "rank of a value above all")
		}
		// in order
		prev := 0.0
		for i := 0; i <= 32; i++ {
			x := lo + (hi-lo)/32*float64(i)
			if x > hi {
				x = hi
			}
			y := rank(a, x)
			z.Assert(y >= prev-1e-12, "ranks do not decrease with the value")
			z.Assert(z.Implies(v < x, r <= y+1e-12), "ranks do not decrease with the value")
			z.Assert(z.Implies(v > x, r >= y-1e-12), "ranks do not decrease with the value")
			below, upto := count(all, x)
			z.Assert(!distinct || y >= float64(below)/float64(n)-0.17 && y <= float64(upto)/float64(n)+0.17, "ranks are near the true ranks")
			prev = y
		}
	} else {
		// the ends, at any rank
		r := z.F64("rank")
		w := r * float64(n)
		z.Assume(z.And(r >= 0, r <= 1))
		z.Assume(z.Or(w < 1, w > float64(n)-1))
		q := quantile(a, r)
		z.Assert(z.Or(q == lo, q == hi), "the first and last quantiles are the extremes")
		prev := lo
		const grid = 120
		for i := 0; i <= grid; i++ {
			q := quantile(a, float64(i)/grid)
			z.Assert(q >= lo && q <= hi, "quantiles are between the minimum and the maximum")
			z.Assert(q >= prev-1e-9*math.Abs(prev), "quantiles do not decrease with the rank")
			below, upto := count(all, q)
			z.Assert(!distinct || float64(below)/float64(n) <= float64(i)/grid+0.17 && float64(upto)/float64(n) >= float64(i)/grid-0.17, "quantiles are near the true quantiles")
			prev = q
		}
	}
	conserved(a, all)
}

// Refused: NaN and infinities are refused and leave the digest as it is.
//
// zz: C25 q Refused 0
// zz: C25 q Refused 3
func Refused(n int) {
	z.Merging(false)
	var all []float64
	d := digest(10)
	for i := 0; i < n; i++ {
		all = append(all, base(i))
		must(d.Update(base(i)), "update")
	}
	v := math.Float64frombits(z.U64("bits"))
	z.Assume(z.Or(v != v, z.Or(v > math.MaxFloat64, v < -math.MaxFloat64)))
	z.Assert(d.Update(v) != nil, "NaN and infinities are refused")
	conserved(d, all)
	if n > 0 {
		_, err := d.Rank(v)
		z.Assert(z.Implies(v != v, err != nil), "rank of NaN is refused")
	} else {
		_, err := d.Rank(1)
		_, err2 := d.Quantile(0.5)
		_, err3 := d.CDF([]float64{1})
		_, err4 := d.PMF([]float64{1})
		z.Assert(err != nil && err2 != nil && err3 != nil && err4 != nil, "an empty digest has no ranks and quantiles")
	}
	for _, k := range []int{0, 1, 9} {
		_, err := tdigest.NewDouble(uint16(k))
		z.Assert(err != nil, "k below 10 is refused")
	}
}

// Splits: the distribution functions agree with the ranks and add up to one.
//
// zz: C25 q Splits 10 6
// zz: C25 q Splits 10 40
func Splits(k, n int) {
	z.Merging(false)
	all := heavy(z.Choose("stream", 5), n)
	d := digest(k)
	for _, v := range all {
		must(d.Update(v), "update")
	}
	lo, hi := extremes(all)
	pts := []float64{lo, (lo + hi) / 2, hi}
	v := number("split", pts)
	var split []float64
	i := z.Choose("place", 4)
	split = append(append(append(split, pts[:i]...), v), pts[i:]...)
	bad := false
	for j := 1; j < len(split); j++ {
		bad = z.Or(bad, !(split[j-1] < split[j]))
	}
	c, err := d.CDF(split)
	p, err2 := d.PMF(split)
	if err != nil || err2 != nil {
		z.Assert(bad, "increasing split points are accepted")
		return
	}
	z.Assert(!bad, "split points that do not increase are refused")
	z.Assert(len(c) == 5 && len(p) == 5, "one part more than split points")
	z.Assert(c[4] == 1, "the last of the cumulative distribution is 1")
	for j, s := range split {
		z.Assert(eq(c[j], rank(d, s)), "the cumulative distribution is the rank")
		if j > 0 {
			z.Assert(eq(p[j], c[j]-c[j-1]), "the mass is the difference of the cumulative distribution")
		}
	}
	z.Assert(eq(p[0], c[0]), "the first mass")
	conserved(d, all)
}

// eq: the same, bit for bit.
func eq(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

// identical asserts that two digests hold the same.
func identical(a, b *tdigest.Double, withBuffer bool) {
	x, err := tdigest.EncodeDouble(a, withBuffer)
	must(err, "encode")
	y, err := tdigest.EncodeDouble(b, withBuffer)
	must(err, "encode")
	z.Assert(len(x) == len(y), "size of the image")
	eq := true
	for i := range x {
		eq = z.And(eq, x[i] == y[i])
	}
	z.Assert(eq, "the images are the same")
}

// Serial: both encoders and both decoders agree and lose nothing.
//
// zz: C25 q Serial 0 0
// zz: C25 q Serial 1 0
// zz: C25 q Serial 2 0
// zz: C25 q Serial 5 3
// zz: C25 q Serial 5 5
// zz: C25 q Serial 40 30
// zz: C25 q Serial 210 205
func Serial(n, queried int) {
	z.Merging(false)
	d := digest(10)
	var all []float64
	for i := 0; i < n; i++ {
		if i == queried && i > 0 {
			rank(d, 0)
		}
		v := base(i) + float64(i)
		if i < 2 {
			v = z.F64("v")
			z.Assume(z.And(v >= -1e300, v <= 1e300))
			if i == 1 {
				z.Assume(v > 1)
			} else {
				z.Assume(v < 0)
			}
			if n > 5 {
				v = base(i)
			}
		}
		must(d.Update(v), "update")
		all = append(all, v)
	}
	with := z.Choose("buffer", 2) == 1
	size := d.SerializedSizeBytes(with)
	b, err := tdigest.EncodeDouble(d, with)
	must(err, "encode")
	z.Assert(len(b) == size, "the size is predicted")
	var w bytes.Buffer
	e := tdigest.NewDoubleEncoder(&w, with)
	must(e.Encode(d), "encode")
	z.Assert(bytes.Equal(w.Bytes(), b), "the encoders agree")
	x, err := tdigest.DecodeDouble(b)
	must(err, "decode")
	dec := tdigest.NewDoubleDecoder()
	rd := bytes.NewReader(append(append([]byte{}, b...), 99))
	y, err := dec.Decode(rd)
	must(err, "decode")
	z.Assert(rd.Len() == 1, "the stream is read to the end of the image")
	for i := range b {
		b[i] = 0xee
	}
	conserved(x, all)
	conserved(y, all)
	z.Assert(x.K() == d.K() && y.K() == d.K(), "k is kept")
	if n != 1 { // an image of one value is read as a centroid, not a buffered value
		identical(x, d, true)
		identical(y, d, true)
	}
	if z.Choose("more", 2) == 1 {
		for i := 0; i < 3; i++ {
			for _, t := range []*tdigest.Double{d, x, y} {
				must(t.Update(base(i)), "update")
			}
			all = append(all, base(i))
		}
	}
	if n != 1 {
		identical(x, d, false)
		identical(y, d, false)
	} else {
		for _, v := range all {
			r := rank(d, v)
			z.Assert(rank(x, v) == r && rank(y, v) == r, "the ranks are the same")
		}
	}
	conserved(x, all)
	conserved(y, all)
	conserved(d, all)
}

// Apart: digests that were merged or read share nothing.
//
// zz: C29 q Apart 2 3
// zz: C29 q Apart 12 20
// zz: C25 q Apart 12 20
func Apart(m, n int) {
	z.Merging(false)
	a, b := digest(10), digest(10)
	var va, vb []float64
	for i := 0; i < m; i++ {
		va = append(va, base(i))
		must(a.Update(base(i)), "update")
	}
	for i := 0; i < n; i++ {
		vb = append(vb, base(i+3))
		must(b.Update(base(i+3)), "update")
	}
	touch(&a, "a")
	touch(&b, "b")
	before, err := tdigest.EncodeDouble(b, true)
	must(err, "encode")
	must(a.Merge(b), "merge")
	va = append(va, vb...)
	after, err := tdigest.EncodeDouble(b, true)
	must(err, "encode")
	z.Assert(bytes.Equal(before, after), "merging leaves the other digest as it is")
	touch(&a, "a2")
	v := [4]float64{-9, -8, 3.3, 2e10}[z.Choose("v", 4)]
	switch z.Choose("then", 3) {
	case 0:
		must(a.Update(v), "update")
		va = append(va, v)
		rank(a, 1)
	case 1:
		must(a.Merge(a), "merge with itself")
		va = append(va, va...)
		rank(a, 1)
	case 2:
		must(b.Update(v), "update")
		vb = append(vb, v)
		rank(b, 1)
		conserved(a, va)
		conserved(b, vb)
		return
	}
	again, err := tdigest.EncodeDouble(b, true)
	must(err, "encode")
	z.Assert(bytes.Equal(before, again), "later changes leave the other digest as it is")
	conserved(a, va)
	conserved(b, vb)
}

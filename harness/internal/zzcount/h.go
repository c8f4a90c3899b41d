// Package zzcount: count-min sketches.
package zzcount

import (
	"bytes"

	"github.com/apache/datasketches-go/count"
	z "github.com/apache/datasketches-go/internal/zzsym"
)

func must(err error) {
	if err != nil {
		z.Assert(false, "unexpected error: "+err.Error())
	}
}

func item(i int) []byte { return []byte{byte('a' + i), 7} }

// abstract makes hashing arbitrary up to the bucket it selects; the quotient is fixed and large.
func abstract(buckets int) {
	z.HashFree, z.SeededRand = true, true
	z.PresetHash(0, z.LE8(seed), 0, 0x1357, 7)
	top := ^uint64(0)/uint64(buckets) - 2
	seen := map[uint64]bool{}
	z.HashGen = func(_ int, _ []byte, sd uint64) (uint64, uint64) {
		if !seen[sd] { // the first item of a row: its bucket is fixed
			seen[sd] = true
			return top*uint64(buckets) + uint64(len(seen)%buckets), 3
		}
		return top*uint64(buckets) + uint64(z.Choose("bucket", buckets)), 3
	}
}

const (
	seed  = 77
	wbits = 32
)

func weight(bits int) int64 { return int64(z.Nondet("w", bits)) }

func add(s *count.CountMinSketch, it []byte, w int64, form int) {
	if form == 1 {
		must(s.UpdateString(string(it), w))
		return
	}
	must(s.Update(it, w))
}

type model struct {
	total int64
	w     []int64
}

func newModel(items int) *model { return &model{w: make([]int64, items)} }

func checkAll(s *count.CountMinSketch, m *model, tag string) {
	z.Assert(s.GetTotalWeight() == m.total, tag+": total weight is the sum of the weights")
	for i, t := range m.w {
		e := s.GetEstimate(item(i))
		z.Assert(e >= t, tag+": an estimate is at least the true weight")
		z.Assert(e <= m.total, tag+": an estimate is at most the total weight")
		z.Assert(s.GetLowerBound(item(i)) == e, tag+": the lower bound is the estimate")
		z.Assert(s.GetEstimateString(string(item(i))) == e, tag+": string and byte estimates agree")
		z.Observe(uint64(e))
	}
}

func same(a, b *count.CountMinSketch, items int, label string) {
	ok := a.GetTotalWeight() == b.GetTotalWeight()
	for i := 0; i < items; i++ {
		ok = z.And(ok, a.GetEstimate(item(i)) == b.GetEstimate(item(i)))
	}
	z.Assert(ok, label)
}

// Stream feeds n updates of arbitrary weights to sketches of hashes x buckets; the items'
// hashes are arbitrary. It then serializes, and merges with a second stream of m updates.
//
// zz: C24 q Stream 1 3 2 3 0
// zz: C24 q Stream 1 4 3 3 1
// zz: C24 q Stream 2 3 2 3 2
// zz: C24 q Stream 3 3 2 2 1
// zz: C24 t Stream 3 3 2 3 2
// zz: C24 t Stream 2 4 2 4 3
// zz: C24 t Stream 4 3 2 2 2
func Stream(hashes, buckets, items, n, m int) {
	abstract(buckets)
	mk := func() *count.CountMinSketch {
		s, err := count.NewCountMinSketch(int8(hashes), int32(buckets), seed)
		must(err)
		return s
	}
	a, all := mk(), mk()
	ma, mall := newModel(items), newModel(items)
	feed := func(s *count.CountMinSketch, mo *model, n int) {
		for i := 0; i < n; i++ {
			k := i
			if i >= items {
				k = z.Choose("item", items)
			}
			w := weight(wbits)
			add(s, item(k), w, i&1)
			add(all, item(k), w, 0)
			mo.total += w
			mo.w[k] += w
			mall.total += w
			mall.w[k] += w
		}
	}
	feed(a, ma, n)
	checkAll(a, ma, "stream")
	var buf bytes.Buffer
	must(a.Serialize(&buf))
	d, err := mk().Deserialize(buf.Bytes(), seed)
	must(err)
	checkAll(d, ma, "decoded")
	same(a, d, items, "a decoded sketch answers alike")
	if m > 0 {
		b, mb := mk(), newModel(items)
		feed(b, mb, m)
		must(d.Merge(b))
		checkAll(d, mall, "merged")
		same(d, all, items, "a merge is the sketch of both streams")
		checkAll(b, mb, "merge source")
	}
}

// Bounds: the lower bound is the estimate and the upper bound adds e/buckets of the total weight.
//
// zz: C24 q Bounds 3 16
// zz: C24 t Bounds 7 50
func Bounds(buckets, bits int) {
	abstract(buckets)
	s, err := count.NewCountMinSketch(1, int32(buckets), 5)
	must(err)
	w := weight(bits)
	add(s, item(0), w, 0)
	e, ub, lb := s.GetEstimate(item(0)), s.GetUpperBound(item(0)), s.GetLowerBound(item(0))
	z.Assert(lb == e, "lower bound is the estimate")
	rel := 2.718281828459045 / float64(buckets)
	z.Assert(s.GetRelativeError() == rel, "relative error is e/buckets")
	z.Assert(ub == e+int64(rel*float64(w)), "upper bound adds the relative error")
}

// Mismatch: sketches of different shape or seed do not merge, and the target is unchanged.
//
// zz: C24 q Mismatch
func Mismatch() {
	z.HashFree, z.SeededRand = true, true
	a, _ := count.NewCountMinSketch(2, 3, 5)
	w := weight(wbits)
	add(a, item(0), w, 0)
	e := a.GetEstimate(item(0))
	shapes := [][3]int{{3, 3, 5}, {2, 4, 5}, {2, 3, 6}}
	sh := shapes[z.Choose("shape", 3)]
	b, _ := count.NewCountMinSketch(int8(sh[0]), int32(sh[1]), int64(sh[2]))
	add(b, item(0), weight(40), 0)
	z.Assert(a.Merge(b) != nil, "incompatible sketches are refused")
	z.Assert(a.GetEstimate(item(0)) == e, "a refused merge changes nothing")
	z.Assert(a.Merge(a) != nil, "self merge is refused")
}

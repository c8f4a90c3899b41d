// Package zzfreq: frequent-items sketches.
package zzfreq

import (
	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/frequencies"
	z "github.com/apache/datasketches-go/internal/zzsym"
)

func must(err error, what string) {
	if err != nil {
		z.Assert(false, what+" fails: "+err.Error())
	}
}

// mix is a fixed scrambler.
func mix(i, salt uint64) uint64 {
	x := (i+1)*0x9E3779B97F4A7C15 + salt*0xD1B54A32D192ED03
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	return x
}

// sketch is one of the two kinds, over numbered items.
type sketch interface {
	update(i int, w int64) error
	lower(i int) (int64, error)
	upper(i int) (int64, error)
	estimate(i int) (int64, error)
	maxError() int64
	length() int64
	active() int
	capacity() int
	empty() bool
	merge(o sketch) error
	reset()
	rows(threshold int64, falseNegatives bool, plain bool) ([]row, error)
	bytes() ([]byte, error)
	read(b []byte) (sketch, error)
}

type row struct {
	item        int
	est, lb, ub int64
}

// places says where the items of a run live in the hash table.
type places struct {
	home []int
	keys []int64
	// other items may occur
	loose bool
}

// ---- longs

type longs struct {
	s *frequencies.LongsSketch
	p *places
}

func finish(k uint64) uint64 {
	k ^= k >> 33
	k *= 0xff51afd7ed558ccd
	k ^= k >> 33
	k *= 0xc4ceb9fe1a85ec53
	k ^= k >> 33
	return k
}

// keysAt finds items of the wanted places in a table of 8; some are negative.
func keysAt(home []int) []int64 {
	r := make([]int64, len(home))
	next := int64(1)
	for i, h := range home {
		for {
			k := next
			if k%3 == 0 {
				k = -k
			}
			next++
			if int(finish(uint64(k))&7) == h&7 {
				r[i] = k
				break
			}
		}
	}
	return r
}

func newLongs(lgMax, lgCur int, p *places) *longs {
	s, err := frequencies.NewLongsSketch(lgMax, lgCur)
	must(err, "new")
	return &longs{s, p}
}

func (l *longs) update(i int, w int64) error {
	if w == 1 {
		return l.s.Update(l.p.keys[i])
	}
	return l.s.UpdateMany(l.p.keys[i], w)
}
func (l *longs) lower(i int) (int64, error)    { return l.s.GetLowerBound(l.p.keys[i]) }
func (l *longs) upper(i int) (int64, error)    { return l.s.GetUpperBound(l.p.keys[i]) }
func (l *longs) estimate(i int) (int64, error) { return l.s.GetEstimate(l.p.keys[i]) }
func (l *longs) maxError() int64               { return l.s.GetMaximumError() }
func (l *longs) length() int64                 { return l.s.GetStreamLength() }
func (l *longs) active() int                   { return l.s.GetNumActiveItems() }
func (l *longs) capacity() int                 { return l.s.GetMaximumMapCapacity() }
func (l *longs) empty() bool                   { return l.s.IsEmpty() }
func (l *longs) reset()                        { l.s.Reset() }
func (l *longs) merge(o sketch) error {
	_, err := l.s.Merge(o.(*longs).s)
	return err
}
func (l *longs) bytes() ([]byte, error) { return l.s.ToSlice(), nil }
func (l *longs) read(b []byte) (sketch, error) {
	s, err := frequencies.NewLongsSketchFromSlice(b)
	return &longs{s, l.p}, err
}
func (l *longs) rows(threshold int64, falseNegatives, plain bool) (r []row, err error) {
	t := frequencies.ErrorTypeEnum.NoFalsePositives
	if falseNegatives {
		t = frequencies.ErrorTypeEnum.NoFalseNegatives
	}
	var rs []*frequencies.Row
	if plain {
		rs, err = l.s.GetFrequentItems(t)
	} else {
		rs, err = l.s.GetFrequentItemsWithThreshold(threshold, t)
	}
	for _, x := range rs {
		r = append(r, row{l.p.item(x.GetItem()), x.GetEstimate(), x.GetLowerBound(), x.GetUpperBound()})
	}
	return
}

func (p *places) item(k int64) int {
	for i, x := range p.keys {
		if x == k {
			return i
		}
	}
	return -1
}

// ---- items

// hasher puts the items where p says.
type hasher struct{ p *places }

func (h hasher) Hash(k int64) uint64 {
	if h.p.loose {
		return uint64(k) * 3
	}
	i := h.p.item(k)
	z.Assert(i >= 0, "the hasher is asked only for items of the stream")
	return uint64(h.p.home[i]) | mix(uint64(i), 9)<<16
}

type things struct {
	s *frequencies.ItemsSketch[int64]
	p *places
}

func newThings(lgMax, lgCur int, p *places) *things {
	s, err := frequencies.NewFrequencyItemsSketch[int64](lgMax, lgCur, hasher{p}, common.ItemSketchLongSerDe{})
	must(err, "new")
	return &things{s, p}
}

func (l *things) update(i int, w int64) error {
	if w == 1 {
		return l.s.Update(l.p.keys[i])
	}
	return l.s.UpdateMany(l.p.keys[i], w)
}
func (l *things) lower(i int) (int64, error)    { return l.s.GetLowerBound(l.p.keys[i]) }
func (l *things) upper(i int) (int64, error)    { return l.s.GetUpperBound(l.p.keys[i]) }
func (l *things) estimate(i int) (int64, error) { return l.s.GetEstimate(l.p.keys[i]) }
func (l *things) maxError() int64               { return l.s.GetMaximumError() }
func (l *things) length() int64                 { return l.s.GetStreamLength() }
func (l *things) active() int                   { return l.s.GetNumActiveItems() }
func (l *things) capacity() int                 { return l.s.GetMaximumMapCapacity() }
func (l *things) empty() bool                   { return l.s.IsEmpty() }
func (l *things) reset()                        { must(l.s.Reset(), "reset") }
func (l *things) merge(o sketch) error {
	_, err := l.s.Merge(o.(*things).s)
	return err
}
func (l *things) bytes() ([]byte, error) { return l.s.ToSlice() }
func (l *things) read(b []byte) (sketch, error) {
	s, err := frequencies.NewFrequencyItemsSketchFromSlice[int64](b, hasher{l.p}, common.ItemSketchLongSerDe{})
	return &things{s, l.p}, err
}
func (l *things) rows(threshold int64, falseNegatives, plain bool) (r []row, err error) {
	t := frequencies.ErrorTypeEnum.NoFalsePositives
	if falseNegatives {
		t = frequencies.ErrorTypeEnum.NoFalseNegatives
	}
	var rs []*frequencies.RowItem[int64]
	if plain {
		rs, err = l.s.GetFrequentItems(t)
	} else {
		rs, err = l.s.GetFrequentItemsWithThreshold(threshold, t)
	}
	for _, x := range rs {
		r = append(r, row{l.p.item(x.GetItem()), x.GetEstimate(), x.GetLowerBound(), x.GetUpperBound()})
	}
	return
}

// ---- scenarios

func newSketch(kind, lgMax, lgCur int, p *places) sketch {
	if kind == 0 {
		return newLongs(lgMax, lgCur, p)
	}
	return newThings(lgMax, lgCur, p)
}

// arrange places u items (and one more, never fed): pattern 0 spreads them, 1 puts all at the end
// of the table, so that they wrap around, 2 makes two clusters, others mix; sym of them, from the
// first on, lie anywhere in a table of 8.
func arrange(u, pat, sym int) *places {
	home := make([]int, u+1)
	for i := range home {
		switch pat {
		case 0:
			home[i] = i % 8
		case 1:
			home[i] = 7
		case 2:
			home[i] = 6 + 4*(i%2)
		default:
			home[i] = int(mix(uint64(i), uint64(pat)) % 8)
		}
	}
	for i := 0; i < sym; i++ {
		home[2*i] = z.Choose("place", 8)
	}
	home[u] = home[0]
	return &places{home, keysAt(home), false}
}

type event struct {
	item int
	w    int64
}

// stream is n updates with items 0..u-1: first each once, then in a mixed order; the weights are
// small and fixed (pat 0: all 1) but for the symW ones from position at on, which are arbitrary in
// 1..250, and the last symI updates take arbitrary items.
func stream(n, u, pat, symW, at, symI int) []event {
	r := make([]event, n)
	for i := range r {
		r[i] = event{i, 1}
		if i >= u {
			r[i].item = int(mix(uint64(i), 3) % uint64(u))
		}
		if pat != 0 {
			r[i].w = int64(mix(uint64(i), uint64(pat))%4) + 1
		}
		if i >= at && i < at+symW {
			r[i].w = int64(z.Between("weight", 8, 1, 250))
		}
		if i >= n-symI {
			r[i].item = z.Choose("item", u)
		}
	}
	return r
}

func truth(es []event, u int) []uint16 {
	t := make([]uint16, u+1)
	for _, e := range es {
		t[e.item] += uint16(e.w)
	}
	return t
}

// check asserts the guarantees for the items 0..u, of which u was never fed. exactUpTo is the
// number of distinct items up to which nothing is lost.
func check(s sketch, es []event, u int, exactUpTo int, label string) {
	checkCap(s, es, u, exactUpTo, s.capacity(), label)
}

// checkCap is check for a sketch whose error is that of a sketch of another capacity.
func checkCap(s sketch, es []event, u int, exactUpTo, capacity int, label string) {
	t := truth(es, u)
	var total uint16
	seen := make([]bool, u+1)
	distinct := 0
	for _, e := range es {
		total += uint16(e.w)
		if !seen[e.item] {
			seen[e.item] = true
			distinct++
		}
	}
	me := s.maxError()
	z.Assert(s.length() == int64(total), label+": the stream length is the sum of the weights")
	z.Assert(me >= 0 && me <= int64(total), label+": the maximum error is within the stream length")
	ok, tight, est := true, true, true
	for i := 0; i <= u; i++ {
		lo, e1 := s.lower(i)
		hi, e2 := s.upper(i)
		es, e3 := s.estimate(i)
		must(e1, "lower bound")
		must(e2, "upper bound")
		must(e3, "estimate")
		ok = z.And(ok, z.And(lo <= int64(t[i]), int64(t[i]) <= hi))
		tight = z.And(tight, z.And(lo >= 0, hi-lo <= me))
		est = z.And(est, z.And(0 <= es, es <= hi))
		est = z.And(est, z.Or(lo <= es, lo == 0))
	}
	z.Assert(ok, label+": lower bound <= true frequency <= upper bound")
	z.Assert(tight, label+": the bounds are within the maximum error of each other")
	z.Assert(est, label+": the estimate is between the bounds")
	z.Assert(s.active() <= s.capacity() && s.active() <= distinct, label+": at most the maximum capacity of items is tracked")
	if distinct <= exactUpTo {
		z.Assert(me == 0 && s.active() == distinct, label+": everything is exact while the items fit")
	}
	// the error guaranteed beforehand, 3.5/size of the stream length
	size := (capacity*4 + 2) / 3
	z.Assert(uint64(me)*uint64(2*size) <= 7*uint64(total), label+": the maximum error is within the error guaranteed beforehand")
	z.Observe(uint64(me))
}

// Update: see arrange and stream; kind 0 longs, 1 items.
//
// zz: C19 q Update 0 3 3 9 7 0 0 0 0 0 | covers=purged
// zz: C19 q Update 1 3 3 9 7 0 0 0 0 0 | covers=purged
// zz: C19 q Update 0 3 3 9 8 1 0 2 3 1 | covers=purged
// zz: C19 q Update 1 3 3 9 8 1 0 2 3 1 | covers=purged
// zz: C19 q Update 0 3 3 8 8 3 3 0 0 0 | covers=purged
// zz: C19 q Update 1 3 3 8 8 4 3 0 0 0 | covers=purged
// zz: C19 q Update 0 3 3 8 8 2 0 4 2 0 | covers=purged
// zz: C19 q Update 1 3 3 8 8 5 0 4 4 0 | covers=purged
// zz: C19 q Update 0 3 3 20 12 5 1 1 4 1 | covers=purged
// zz: C19 q Update 1 3 3 20 12 6 1 1 10 1 | covers=purged
// zz: C19 q Update 0 4 3 16 14 7 1 1 5 1 | covers=purged
// zz: C19 q Update 1 4 3 16 14 8 1 1 12 1 | covers=purged
// zz: C19 q Update 1 5 4 14 13 9 1 2 5 1
// zz: C19 q Update 0 5 3 14 13 9 1 2 5 1
// zz: C19 q Update 1 0 0 9 8 5 0 1 2 1 | covers=purged
// zz: C19 q Update 0 0 0 9 8 5 0 1 2 1 | covers=purged
// zz: C19 q Update 1 2 3 9 8 5 0 1 2 1 | covers=purged
// zz: C19 t Update 0 3 3 9 8 2 1 5 2 1 | covers=purged budget=1200
// zz: C19 t Update 1 3 3 9 8 5 4 1 2 0 | covers=purged budget=1200
// zz: C19 t Update 1 3 3 30 14 6 1 2 10 1 | covers=purged budget=600
// zz: C19 t Update 0 4 3 40 30 7 1 2 20 1 | covers=purged budget=600
func Update(kind, lgMax, lgCur, n, u, pat, symH, symW, at, symI int) {
	z.Merging(false)
	p := arrange(u, pat, symH)
	s := newSketch(kind, lgMax, lgCur, p)
	z.Assert(s.empty() && s.length() == 0, "a new sketch is empty")
	es := stream(n, u, pat, symW, at, symI)
	for i, e := range es {
		must(s.update(e.item, e.w), "update")
		if i >= u-2 {
			check(s, es[:i+1], u, s.capacity(), "sketch")
		}
	}
	must(s.update(0, 0), "update with no weight")
	z.Assert(s.update(0, -1) != nil, "negative weights are refused")
	check(s, es, u, s.capacity(), "after updates that do not count")
	if s.maxError() > 0 {
		z.Cover("purged")
	}
}

func feed(s sketch, es []event) {
	for _, e := range es {
		must(s.update(e.item, e.w), "update")
	}
}

func distinct(n int) int {
	if n <= 8 {
		return n
	}
	return n - 2
}

// Merge: sketches of n1 and n2 updates and maximum sizes lg1 and lg2; the second one's items start
// at off. The operand is left as it was.
//
// zz: C19 q Merge 0 3 7 3 7 7 0 0
// zz: C19 q Merge 1 3 7 3 7 7 0 0
// zz: C19 q Merge 1 3 0 3 5 0 3 0
// zz: C19 q Merge 0 3 5 3 5 3 0 1
// zz: C19 q Merge 1 3 5 3 5 3 3 1
// zz: C19 q Merge 0 3 9 3 9 4 3 1
// zz: C19 q Merge 1 3 9 3 9 4 5 1
// zz: C19 q Merge 0 4 14 3 9 4 5 1
// zz: C19 q Merge 1 3 9 4 14 4 5 1
// zz: C19 q Merge 1 4 5 4 5 2 0 1
// zz: C19 t Merge 0 3 9 3 9 4 3 2 | budget=600
// zz: C19 t Merge 1 3 9 3 9 2 2 2 | budget=600
func Merge(kind, lg1, n1, lg2, n2, off, pat, sym int) {
	z.Merging(false)
	u := max(n1, off+n2)
	p := arrange(u, pat, min(sym, 1))
	a, b := newSketch(kind, lg1, 3, p), newSketch(kind, lg2, 3, p)
	as := stream(n1, distinct(n1), pat, min(sym, n1), n1/2, 0)
	bs := stream(n2, distinct(n2), pat, min(sym, n2), n2/3, 0)
	for i := range bs {
		bs[i].item += off
	}
	feed(a, as)
	feed(b, bs)
	exact := min(a.capacity(), b.capacity())
	must(a.merge(b), "merge")
	all := append(append([]event{}, as...), bs...)
	checkCap(a, all, u, exact, exact, "merged")
	check(b, bs, u, b.capacity(), "the operand")
	must(a.update(1, 3), "update")
	all = append(all, event{1, 3})
	checkCap(a, all, u, exact, exact, "merged and updated")
	c := newSketch(kind, lg1, 3, p)
	must(c.merge(a), "merge")
	checkCap(c, all, u, exact, exact, "merged again")
	checkCap(a, all, u, exact, exact, "the second operand")
}

// Life: a sketch that was reset behaves as a new one; merged sketches share nothing.
//
// zz: C29 q Life 0 1
// zz: C29 q Life 1 2
func Life(kind, pat int) {
	z.Merging(false)
	p := arrange(10, pat, 1)
	as, bs := stream(9, 8, pat, 0, 0, 0), stream(11, 10, pat+2, 1, 3, 1)
	a, b, c := newSketch(kind, 3, 3, p), newSketch(kind, 3, 3, p), newSketch(kind, 3, 3, p)
	feed(a, as)
	a.reset()
	z.Assert(a.empty() && a.length() == 0 && a.maxError() == 0 && a.active() == 0, "a sketch that was reset is empty")
	feed(a, bs)
	feed(b, bs)
	same(a, b, 10, "a sketch that was reset behaves as a new one")
	feed(c, as)
	must(c.merge(b), "merge")
	feed(c, as)
	same(a, b, 10, "updating a merged sketch leaves its operand as it was")
	d := newSketch(kind, 3, 3, p)
	feed(d, as)
	must(d.merge(b), "merge")
	feed(d, as)
	feed(b, as)
	must(b.merge(c), "merge")
	b.reset()
	same(c, d, 10, "updating an operand leaves the merged sketch as it was")
}

// same asserts that two sketches answer alike.
func same(a, b sketch, u int, label string) {
	z.Assert(z.And(a.length() == b.length(), a.maxError() == b.maxError()), label+": stream length and maximum error")
	z.Assert(a.active() == b.active() && a.empty() == b.empty(), label+": number of items")
	ok := true
	for i := 0; i <= u; i++ {
		x, e1 := a.lower(i)
		y, e2 := b.lower(i)
		must(e1, "lower bound")
		must(e2, "lower bound")
		ok = z.And(ok, x == y)
		x, e1 = a.upper(i)
		y, e2 = b.upper(i)
		must(e1, "upper bound")
		must(e2, "upper bound")
		ok = z.And(ok, x == y)
		x, e1 = a.estimate(i)
		y, e2 = b.estimate(i)
		must(e1, "estimate")
		must(e2, "estimate")
		ok = z.And(ok, x == y)
	}
	z.Assert(ok, label+": bounds and estimates")
}

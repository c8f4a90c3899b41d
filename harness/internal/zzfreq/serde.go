package zzfreq

import (
	"github.com/apache/datasketches-go/frequencies"
	z "github.com/apache/datasketches-go/internal/zzsym"
)

// ask compares a query with the bounds of all items of a stream.
func ask(s sketch, u int, th int64, nfn, plain bool, label string) {
	got, err := s.rows(th, nfn, plain)
	must(err, "frequent items")
	if plain || th < s.maxError() {
		th = s.maxError()
	}
	pos := make([]int, u+1)
	for i := range pos {
		pos[i] = -1
	}
	for i, r := range got {
		z.Assert(r.item >= 0 && r.item < u, label+": rows are items of the stream")
		z.Assert(pos[r.item] < 0, label+": an item has one row")
		pos[r.item] = i
		if i > 0 {
			z.Assert(got[i-1].est >= r.est, label+": rows are in descending order of estimate")
		}
	}
	for i := 0; i <= u; i++ {
		lo, e1 := s.lower(i)
		hi, e2 := s.upper(i)
		es, e3 := s.estimate(i)
		must(e1, "lower bound")
		must(e2, "upper bound")
		must(e3, "estimate")
		b := lo
		if nfn {
			b = hi
		}
		z.Assert((pos[i] >= 0) == z.And(lo > 0, b >= th), label+": the rows are the tracked items that reach the threshold")
		if pos[i] >= 0 {
			r := got[pos[i]]
			z.Assert(z.And(r.lb == lo, z.And(r.ub == hi, r.est == es)), label+": a row has the bounds and the estimate of its item")
		}
	}
	if len(got) > 1 {
		z.Cover("several")
	}
}

// Rows: see Update; any threshold below 1000, or none.
//
// zz: C20 q Rows 0 3 3 5 5 0 0 3 0 0 | covers=several
// zz: C20 q Rows 1 3 3 5 5 0 0 3 0 0 | covers=several
// zz: C20 q Rows 0 3 3 9 8 3 0 2 1 1 | covers=several
// zz: C20 q Rows 1 3 3 9 8 3 0 2 1 1 | covers=several
// zz: C20 q Rows 0 3 3 20 12 5 1 1 4 1 | covers=several
// zz: C20 q Rows 1 3 3 20 12 6 1 1 10 1 | covers=several
// zz: C20 q Rows 0 4 3 16 14 7 1 1 5 1 | covers=several
// zz: C20 q Rows 1 5 3 16 14 8 1 1 12 1 | covers=several
// zz: C20 t Rows 0 3 3 6 6 0 2 4 0 0 | covers=several budget=900
// zz: C20 t Rows 1 4 3 30 15 6 1 2 8 1 | covers=several budget=900
func Rows(kind, lgMax, lgCur, n, u, pat, symH, symW, at, symI int) {
	z.Merging(false)
	p := arrange(u, pat, symH)
	s := newSketch(kind, lgMax, lgCur, p)
	es := stream(n, u, pat, symW, at, symI)
	feed(s, es)
	nfn := z.Choose("kind", 2) == 1
	if z.Choose("plain", 2) == 1 {
		ask(s, u, 0, nfn, true, "without threshold")
	} else {
		ask(s, u, int64(z.Between("threshold", 64, 0, 1000)), nfn, false, "with threshold")
	}
}

// Bytes: a sketch that was written and read answers as before, now and after more updates.
//
// zz: C20 q Bytes 0 3 3 0 8 0 0 0 0 0
// zz: C20 q Bytes 1 3 3 0 8 0 0 0 0 0
// zz: C20 q Bytes 0 5 3 0 8 0 0 0 0 0
// zz: C20 q Bytes 1 5 3 0 8 0 0 0 0 0
// zz: C20 q Bytes 0 3 3 7 7 0 0 0 0 0
// zz: C20 q Bytes 1 3 3 7 7 0 0 0 0 0
// zz: C20 q Bytes 0 3 3 5 5 0 1 3 0 0
// zz: C20 q Bytes 1 3 3 5 5 0 1 3 0 0
// zz: C20 q Bytes 0 3 3 8 8 2 0 3 2 0
// zz: C20 q Bytes 1 3 3 8 8 2 0 3 2 0
// zz: C20 q Bytes 0 3 3 20 12 5 1 1 4 1
// zz: C20 q Bytes 1 3 3 20 12 6 1 1 10 1
// zz: C20 q Bytes 0 5 4 14 13 9 1 2 5 0
// zz: C20 q Bytes 1 5 4 14 13 9 1 2 5 0
// zz: C20 q Bytes 0 4 4 16 14 7 1 1 5 1
// zz: C20 q Bytes 1 4 4 16 14 7 1 1 5 1
// zz: C20 t Bytes 0 4 3 40 30 7 1 2 20 1 | budget=600
// zz: C20 t Bytes 1 3 3 40 14 7 1 2 20 1 | budget=600
func Bytes(kind, lgMax, lgCur, n, u, pat, symH, symW, at, symI int) {
	z.Merging(false)
	p := arrange(u, pat, symH)
	s := newSketch(kind, lgMax, lgCur, p)
	es := stream(n, u, pat, symW, at, min(symI, n))
	feed(s, es)
	b, err := s.bytes()
	must(err, "serialize")
	r, err := s.read(b)
	must(err, "reading")
	alike(s, r, u, "read back")
	check(r, es, u, s.capacity(), "read back")
	c, err := r.bytes()
	must(err, "serialize")
	r2, err := s.read(c)
	must(err, "reading")
	alike(s, r2, u, "read back twice")
	more(s, r, u, "read back")
}

// alike is same, with the capacity.
func alike(a, b sketch, u int, label string) {
	same(a, b, u, label)
	z.Assert(a.capacity() == b.capacity(), label+": the maximum capacity")
}

// more feeds both sketches distinct items up to the capacity.
func more(a, b sketch, u int, label string) {
	if a.maxError() > 0 || b.maxError() > 0 {
		return // what a purge does depends on the order in the table
	}
	for i := 0; i < u; i++ {
		if v, _ := a.lower(i); v == 0 && a.active() == a.capacity() {
			continue
		}
		must(a.update(i, int64(i)+1), "update")
		must(b.update(i, int64(i)+1), "update")
	}
	alike(a, b, u, label+" and updated")
}

// Text: a longs sketch that was written as text and read answers as before.
//
// zz: C20 q Text 3 3 0 8 0 0 0
// zz: C20 q Text 5 3 0 8 0 0 0
// zz: C20 q Text 3 3 7 7 0 0 0
// zz: C20 q Text 3 3 5 5 0 1 0
// zz: C20 q Text 3 3 9 8 2 1 1
// zz: C20 q Text 3 3 20 12 5 1 1
// zz: C20 q Text 5 4 14 13 9 1 1
func Text(lgMax, lgCur, n, u, pat, symH, symI int) {
	z.Merging(false)
	p := arrange(u, pat, symH)
	s := newLongs(lgMax, lgCur, p)
	es := stream(n, u, pat, 0, 0, min(symI, n))
	feed(s, es)
	t, err := s.s.ToString()
	must(err, "text")
	r, err := frequencies.NewLongsSketchFromString(t)
	must(err, "reading text")
	x := &longs{r, p}
	alike(s, x, u, "read from text")
	check(x, es, u, s.capacity(), "read from text")
	more(s, x, u, "read from text")
}

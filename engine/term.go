package main

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"
)

// Op is the operator of a symbolic term.
type Op uint8

const (
	OConst Op = iota
	OVar
	OCat // concatenation of pieces, least significant first
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OSExt
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFSqrt
	OFRnd  // k: 0 RNE 1 RTZ 2 RTP(ceil) 3 RTN(floor) 4 RNA
	OFToF  // float width change
	OFToSI // k source width; result w (RTZ)
	OFToUI
	OSIToF
	OUIToF
	OIn // a, which the path condition places in [b,c]
)

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OIte: "ite",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFSqrt: "fp.sqrt RNE",
}

// Piece is a contiguous run of bits inside an OCat term.
type Piece struct {
	t  *Term // nil: zero bits
	lo uint8
	n  uint8
}

// Term is a hash-consed symbolic expression; w == 0 means Bool.
type Term struct {
	op      Op
	w       uint8
	id      int32
	a, b, c *Term
	k       uint64
	ps      []Piece
	lo, hi  uint64 // unsigned interval
	ones    uint64 // bits that may be one
	ev      uint64
	stamp   uint32
	defined uint32 // solver generation in which the term was defined
	mm      int8   // minmax, plus one once it is known
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c int32
	k       uint64
}

// VarInfo describes a nondeterministic input.
type VarInfo struct {
	Name string
	W    uint8
}

// Ctx owns terms of one worker.
type Ctx struct {
	tab    map[tkey]*Term
	cats   map[string]*Term
	popOf  map[*Term]*Term
	n      int32
	vars   []*Term
	vinfo  []VarInfo
	stamp  uint32
	model  []uint64
	tTrue  *Term
	tFalse *Term
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*Term{}, cats: map[string]*Term{}, popOf: map[*Term]*Term{}}
	c.tTrue = c.Const(0, 1)
	c.tFalse = c.Const(0, 0)
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (c *Ctx) mk(op Op, w uint8, a, b, d *Term, k uint64) *Term {
	key := tkey{op, w, tid(a), tid(b), tid(d), k}
	if t := c.tab[key]; t != nil {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: d, k: k, id: c.n}
	c.n++
	c.setRange(t)
	c.tab[key] = t
	return t
}

func lenMask(v uint64) uint64 { // smallest 2^n-1 >= v
	return mask64(bits.Len64(v))
}
func mask64(n int) uint64 {
	if n >= 64 {
		return ^uint64(0)
	}
	return uint64(1)<<uint(n) - 1
}

// stripZExt returns x when t is a zero extension of x, else t.
func stripZExt(t *Term) *Term {
	if t.op == OCat && len(t.ps) > 0 && t.ps[0].t != nil && t.ps[0].lo == 0 && t.ps[0].n == t.ps[0].t.w {
		for _, p := range t.ps[1:] {
			if p.t != nil && !(p.t.isConst() && p.t.k == 0) {
				return t
			}
		}
		return t.ps[0].t
	}
	return t
}

func (c *Ctx) setRange(t *Term) {
	m := mask(t.w)
	t.lo, t.hi, t.ones = 0, m, m
	switch t.op {
	case OConst:
		t.lo, t.hi, t.ones = t.k, t.k, t.k
	case OIte:
		if t.w == 0 {
			return
		}
		chi := t.c.hi
		if g, e := t.a, t.c; g.op == OEq && g.b.isConst() && g.b.k == g.a.hi && g.b.k > 0 && e.op == OAdd && e.b.isConst() && stripZExt(e.a) == g.a {
			// x == max ? .. : x+k, where x is not the maximum
			if h := g.b.k - 1 + e.b.k; h >= e.b.k {
				chi = min(chi, h)
			}
		}
		t.lo, t.hi = min(t.b.lo, t.c.lo), max(t.b.hi, chi)
		t.ones = (t.b.ones | t.c.ones) & lenMask(t.hi)
	case OFToF:
		if l, h := t.a.lo, t.a.hi; t.a.w == 32 && t.w == 64 && l>>31 == h>>31 && !isNaNBits(h, 32) {
			t.lo, t.hi = fToBits(bitsToF(l, 32), 64), fToBits(bitsToF(h, 32), 64)
			t.ones = lenMask(t.hi)
		}
	case OIn:
		t.lo, t.hi = t.b.k, t.c.k
		t.ones = t.a.ones & lenMask(t.hi)
	case OBAnd:
		t.ones = t.a.ones & t.b.ones
		t.hi = min(t.a.hi, t.b.hi, t.ones)
	case OBOr, OBXor:
		t.ones = t.a.ones | t.b.ones
		t.hi = min(t.ones, lenMask(t.a.hi|t.b.hi))
		if t.op == OBOr {
			t.lo = max(t.a.lo, t.b.lo)
		}
	case OAdd:
		hi, cy := bits.Add64(t.a.hi, t.b.hi, 0)
		if cy == 0 && hi <= m {
			t.lo, t.hi = t.a.lo+t.b.lo, hi
			t.ones = m & lenMask(hi)
		}
		// low zero bits
		z := min(bits.TrailingZeros64(t.a.ones), bits.TrailingZeros64(t.b.ones))
		if z > 0 {
			t.ones &^= mask64(z)
		}
	case OSub:
		if t.a.lo >= t.b.hi {
			t.lo, t.hi = t.a.lo-t.b.hi, t.a.hi-t.b.lo
			t.ones = m & lenMask(t.hi)
		}
	case OMul:
		h, l := bits.Mul64(t.a.hi, t.b.hi)
		if h == 0 && l <= m {
			t.lo, t.hi = t.a.lo*t.b.lo, l
			t.ones = m & lenMask(l)
		}
	case OUDiv:
		if t.b.lo > 0 {
			t.lo, t.hi = t.a.lo/t.b.hi, t.a.hi/t.b.lo
			t.ones = m & lenMask(t.hi)
		}
	case OURem:
		if t.b.lo > 0 {
			t.hi = min(t.a.hi, t.b.hi-1)
			t.ones = m & lenMask(t.hi)
		}
	case OLShr:
		t.hi = t.a.hi
		if t.b.op == OConst && t.b.k < 64 {
			t.hi = t.a.hi >> t.b.k
		} else if t.b.lo < 64 {
			t.hi = t.a.hi >> t.b.lo
		}
		t.ones = m & lenMask(t.hi)
	case OShl:
		if t.b.hi < 64 && t.a.hi != 0 && bits.Len64(t.a.hi)+int(t.b.hi) <= int(t.w) {
			t.hi = t.a.hi << t.b.hi
			t.lo = t.a.lo << t.b.lo
			t.ones = m & lenMask(t.hi)
		}
	case OCat:
		var ones, lo, hi uint64
		sh := uint(0)
		for _, p := range t.ps {
			if p.t != nil {
				if p.t.op == OConst {
					v := (p.t.k >> p.lo) & mask(p.n)
					lo |= v << sh
					hi |= v << sh
					ones |= v << sh
				} else {
					o := (p.t.ones >> p.lo) & mask(p.n)
					ones |= o << sh
					if p.lo == 0 && p.t.hi <= mask(p.n) {
						lo |= p.t.lo << sh
						hi |= p.t.hi << sh
					} else {
						hi |= o << sh
					}
				}
			}
			sh += uint(p.n)
		}
		t.ones, t.lo, t.hi = ones, lo, min(hi, ones)
	}
}

func (c *Ctx) Const(w uint8, v uint64) *Term { return c.mk(OConst, w, nil, nil, nil, v&mask(w)) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.tTrue
	}
	return c.tFalse
}

// Var returns the idx-th nondeterministic input.
func (c *Ctx) Var(idx int, w uint8, name string) *Term {
	t := c.mk(OVar, w, nil, nil, nil, uint64(idx))
	for len(c.vars) <= idx {
		c.vars = append(c.vars, nil)
		c.vinfo = append(c.vinfo, VarInfo{})
	}
	c.vars[idx] = t
	c.vinfo[idx] = VarInfo{name, w}
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.k == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.k == 0 }

// ---------------------------------------------------------------- booleans

func (c *Ctx) Not(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.k == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return c.mk(ONot, 0, a, nil, nil, 0)
}

func (c *Ctx) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return c.tFalse
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAnd, 0, a, b, nil, 0)
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return c.tTrue
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.tTrue
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OOr, 0, a, b, nil, 0)
}

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g.isTrue() {
		return a
	}
	if g.isFalse() || a == b {
		return b
	}
	if g.op == ONot {
		return c.Ite(g.a, b, a)
	}
	if a.w == 0 {
		if a.isTrue() {
			return c.Or(g, b)
		}
		if a.isFalse() {
			return c.And(c.Not(g), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(g), a)
		}
		if b.isFalse() {
			return c.And(g, a)
		}
	}
	if a.op == OIte && a.a == g {
		a = a.b
	}
	if b.op == OIte && b.a == g {
		b = b.c
	}
	if a == b {
		return a
	}
	if g.op == OEq && a.w != 0 && (a.op != OIte && b.op != OIte) && c.Eq(a, b) == g {
		return b
	}
	if a.w == 1 && g.op == OEq && g.b.isConst() && g.a == b && a.isConst() && a.k != g.b.k {
		return a // the bit is set either way
	}
	if a.w > 1 && g.op == OEq && g.b.isConst() && g.b.k == 0 && a.op == OBOr && g.a.op == OBAnd {
		// set a bit that is clear, else leave it: set it
		for i := 0; i < 2; i++ {
			m, o := a.b, a.a
			if i == 1 {
				m, o = o, m
			}
			if o == b && m.singleBit() && (g.a.a == b && g.a.b == m || g.a.b == b && g.a.a == m) {
				return a
			}
		}
	}
	if a.w > 1 && (a.op == OCat && b.op != OIte || b.op == OCat && a.op != OIte) {
		pa, pb := alignPieces(c.pieces(a), c.pieces(b))
		diff, same := -1, 0
		for i := range pa {
			x, y := c.fromPiece(pa[i]), c.fromPiece(pb[i])
			if x == y {
				// cat pulls a condition out when every other piece is constant or selected by it
				if !x.isConst() && !(x.op == OIte && x.a == g) {
					same++
				}
			} else if diff >= 0 {
				diff = -2
				break
			} else {
				diff = i
			}
		}
		if diff >= 0 && same > 0 && pa[diff].n == 1 {
			ps := append([]Piece{}, pa...)
			ps[diff] = Piece{c.Ite(g, c.fromPiece(pa[diff]), c.fromPiece(pb[diff])), 0, pa[diff].n}
			return c.cat(ps, a.w)
		}
	}
	return c.mk(OIte, a.w, g, a, b, 0)
}

// singleBit reports that exactly one bit of t is set, or none.
func (t *Term) singleBit() bool {
	return t.isConst() && t.k&(t.k-1) == 0 || t.op == OShl && t.a.isConst() && t.a.k == 1
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tTrue
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k == b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.Not(a)
		}
	} else {
		if a.hi < b.lo || b.hi < a.lo {
			return c.tFalse
		}
		if b.isConst() {
			if b.k&^a.ones != 0 {
				return c.tFalse
			}
			switch a.op {
			case OIte:
				if mm := c.minmax(a); mm != 0 {
					top := b.k >= a.b.hi && b.k >= a.c.hi
					bot := b.k <= a.b.lo && b.k <= a.c.lo
					switch {
					case mm == 1 && top || mm == 2 && bot:
						return c.And(c.Eq(a.b, b), c.Eq(a.c, b))
					case mm == 2 && top || mm == 1 && bot:
						return c.Or(c.Eq(a.b, b), c.Eq(a.c, b))
					}
					return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
				}
				if a.b.isConst() || a.c.isConst() {
					return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
				}
			case OAdd:
				if a.b.isConst() {
					return c.Eq(a.a, c.Const(a.w, b.k-a.b.k))
				}
				if b.k == 0 {
					if src := c.popOf[a]; src != nil {
						return c.Eq(src, c.Const(src.w, 0))
					}
					if a.a.hi+a.b.hi >= a.a.hi && a.a.hi+a.b.hi <= mask(a.w) {
						return c.And(c.Eq(a.a, b), c.Eq(a.b, b))
					}
				}
			case OBXor:
				if a.b.isConst() {
					return c.Eq(a.a, c.Const(a.w, b.k^a.b.k))
				}
			case OBNot:
				return c.Eq(a.a, c.Const(a.w, ^b.k))
			}
		}
		if a.op == OCat && b.op == OCat {
			// one symbolic field over equal constant low bits: keep whole, as Ult does
			if lo, n, ok := topField(a); ok {
				if lo2, n2, ok2 := topField(b); ok2 && n == n2 && lo == lo2 {
					if na, nb, ok := c.narrowPair(a, b); ok {
						a, b = na, nb
					}
					if a.id > b.id {
						a, b = b, a
					}
					return c.mk(OEq, 0, a, b, nil, 0)
				}
			}
		}
		if a.op == OCat || b.op == OCat {
			// split along common boundaries when few pieces
			pa, pb := c.pieces(a), c.pieces(b)
			pa, pb = alignPieces(pa, pb)
			if len(pa) <= 10 && len(pa) > 1 {
				r := c.tTrue
				for i := range pa {
					x, y := c.fromPiece(pa[i]), c.fromPiece(pb[i])
					r = c.And(r, c.Eq(x, y))
					if r.isFalse() {
						return r
					}
				}
				return r
			}
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, 0, a, b, nil, 0)
}

// topField recognizes constant low bits below one symbolic field below optional zeros.
func topField(t *Term) (lo uint64, n uint8, ok bool) {
	p := t.ps
	if len(p) < 2 || len(p) > 3 || p[1].t == nil || p[1].t.isConst() || len(p) == 3 && p[2].t != nil {
		return 0, 0, false
	}
	if p[0].t == nil {
		return 0, p[0].n, true
	}
	if !p[0].t.isConst() {
		return 0, 0, false
	}
	return p[0].t.k, p[0].n, true
}

func alignPieces(a, b []Piece) ([]Piece, []Piece) {
	var ra, rb []Piece
	i, j := 0, 0
	var x, y Piece
	hx, hy := false, false
	for {
		if !hx {
			if i == len(a) {
				break
			}
			x = a[i]
			i++
			hx = true
		}
		if !hy {
			if j == len(b) {
				break
			}
			y = b[j]
			j++
			hy = true
		}
		n := min(x.n, y.n)
		ra = append(ra, Piece{x.t, x.lo, n})
		rb = append(rb, Piece{y.t, y.lo, n})
		if x.n == n {
			hx = false
		} else {
			x.lo += n
			x.n -= n
		}
		if y.n == n {
			hy = false
		} else {
			y.lo += n
			y.n -= n
		}
	}
	return ra, rb
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.tFalse
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k < b.k)
	}
	if a.hi < b.lo {
		return c.tTrue
	}
	if a.lo >= b.hi {
		return c.tFalse
	}
	if b.isConst() && b.k == 1 {
		return c.Eq(a, c.Const(a.w, 0))
	}
	if a.isConst() && a.k == 0 {
		return c.Not(c.Eq(b, a))
	}
	if b.isConst() && b.k == a.hi {
		return c.Not(c.Eq(a, b))
	}
	if a.isConst() && a.k == b.hi-1 {
		return c.Eq(b, c.Const(b.w, b.hi))
	}
	if a.op == OIte && a.b.isConst() && a.c.isConst() && b.isConst() {
		return c.Ite(a.a, c.Ult(a.b, b), c.Ult(a.c, b))
	}
	if b.op == OIte && b.b.isConst() && b.c.isConst() && a.isConst() {
		return c.Ite(b.a, c.Ult(a, b.b), c.Ult(a, b.c))
	}
	switch c.minmax(b) {
	case 1:
		return c.And(c.Ult(a, b.b), c.Ult(a, b.c))
	case 2:
		return c.Or(c.Ult(a, b.b), c.Ult(a, b.c))
	}
	switch c.minmax(a) {
	case 1:
		return c.Or(c.Ult(a.b, b), c.Ult(a.c, b))
	case 2:
		return c.And(c.Ult(a.b, b), c.Ult(a.c, b))
	}
	// strip common zero high bits / compare narrow
	if na, nb, ok := c.narrowPair(a, b); ok {
		return c.Ult(na, nb)
	}
	return c.mk(OUlt, 0, a, b, nil, 0)
}

// minmax recognizes the unsigned minimum (1) and maximum (2) of two terms.
func (c *Ctx) minmax(t *Term) int {
	if t.op != OIte || t.w == 0 {
		return 0
	}
	if t.mm == 0 {
		t.mm = int8(c.minmax1(t)) + 1
	}
	return int(t.mm) - 1
}

func (c *Ctx) minmax1(t *Term) int {
	g, neg := t.a, false
	if g.op == ONot {
		g, neg = g.a, true
	}
	if g.op != OUlt && g.op != OAnd && g.op != OOr {
		return 0
	}
	x, y := t.b, t.c
	if neg {
		x, y = y, x // !(g) ? y : x  ==  g ? x : y
	}
	if g == c.Ult(x, y) {
		return 1
	}
	if g == c.Ult(y, x) {
		return 2
	}
	return 0
}

// narrowPair strips high zero pieces common to both.
func (c *Ctx) narrowPair(a, b *Term) (*Term, *Term, bool) {
	n := max(bits.Len64(a.hi), bits.Len64(b.hi))
	if n == 0 || n >= int(a.w) {
		return nil, nil, false
	}
	if !(a.op == OCat || a.isConst()) || !(b.op == OCat || b.isConst()) {
		return nil, nil, false
	}
	return c.Extract(a, 0, uint8(n)), c.Extract(b, 0, uint8(n)), true
}

func (c *Ctx) Ule(a, b *Term) *Term {
	return c.Not(c.Ult(b, a))
}

func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.tFalse
	}
	if a.isConst() && b.isConst() {
		return c.Bool(sext(a.k, a.w) < sext(b.k, b.w))
	}
	h := uint64(1) << (a.w - 1)
	if a.hi < h && b.hi < h {
		return c.Ult(a, b)
	}
	if a.lo >= h && b.hi < h {
		return c.tTrue
	}
	if a.hi < h && b.lo >= h {
		return c.tFalse
	}
	if a.op == OIte && b.isConst() && (a.b.isConst() || a.c.isConst()) {
		return c.Ite(a.a, c.Slt(a.b, b), c.Slt(a.c, b))
	}
	if b.op == OIte && a.isConst() && (b.b.isConst() || b.c.isConst()) {
		return c.Ite(b.a, c.Slt(a, b.b), c.Slt(a, b.c))
	}
	return c.mk(OSlt, 0, a, b, nil, 0)
}
func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

// ---------------------------------------------------------------- pieces

func (c *Ctx) pieces(t *Term) []Piece {
	if t.op == OCat {
		return t.ps
	}
	if t.isConst() && t.k == 0 {
		return []Piece{{nil, 0, t.w}}
	}
	return []Piece{{t, 0, t.w}}
}

func (c *Ctx) fromPiece(p Piece) *Term {
	if p.t == nil {
		return c.Const(p.n, 0)
	}
	if p.t.isConst() {
		return c.Const(p.n, p.t.k>>p.lo)
	}
	if p.lo == 0 && p.n == p.t.w {
		return p.t
	}
	return c.cat([]Piece{p}, p.n)
}

func slicePieces(ps []Piece, lo, n uint8) []Piece {
	var r []Piece
	pos := uint8(0)
	end := lo + n
	for _, p := range ps {
		pe := pos + p.n
		s, e := max(pos, lo), min(pe, end)
		if s < e {
			q := Piece{p.t, p.lo + (s - pos), e - s}
			if t := p.t; t != nil && t.op == OAShr && t.b.isConst() && t.b.k < uint64(t.w) && int(q.lo)+int(q.n)+int(t.b.k) <= int(t.w) {
				var in []Piece
				if t.a.op == OCat {
					in = t.a.ps
				} else {
					in = []Piece{{t.a, 0, t.w}}
				}
				r = append(r, slicePieces(in, q.lo+uint8(t.b.k), q.n)...)
			} else {
				r = append(r, q)
			}
		}
		pos = pe
	}
	return r
}

// cat builds a term from pieces (LSB first), normalising.
func (c *Ctx) cat(in []Piece, w uint8) *Term {
	var ps []Piece
	add := func(p Piece) {
		if p.n == 0 {
			return
		}
		if p.t != nil && p.t.isConst() {
			v := (p.t.k >> p.lo) & mask(p.n)
			if v == 0 {
				p = Piece{nil, 0, p.n}
			} else {
				p = Piece{c.Const(p.n, v), 0, p.n}
			}
		} else if p.t != nil && (p.t.ones>>p.lo)&mask(p.n) == 0 {
			p = Piece{nil, 0, p.n}
		}
		if l := len(ps); l > 0 {
			q := &ps[l-1]
			if q.t == nil && p.t == nil {
				q.n += p.n
				return
			}
			if q.t != nil && q.t == p.t && !q.t.isConst() && q.lo+q.n == p.lo {
				q.n += p.n
				return
			}
			if (q.t == nil || q.t.isConst()) && (p.t == nil || p.t.isConst()) {
				var v uint64
				if q.t != nil {
					v = q.t.k
				}
				if p.t != nil {
					v |= p.t.k << q.n
				}
				n := q.n + p.n
				*q = Piece{c.Const(n, v), 0, n}
				return
			}
		}
		ps = append(ps, p)
	}
	for _, p := range in {
		if p.t != nil && p.t.op == OCat {
			for _, q := range slicePieces(p.t.ps, p.lo, p.n) {
				add(q)
			}
			continue
		}
		// push extraction through zero extension of narrower range
		if p.t != nil && !p.t.isConst() {
			top := uint8(bits.Len64(p.t.ones))
			if p.lo < top && p.lo+p.n > top && top > 0 {
				add(Piece{p.t, p.lo, top - p.lo})
				add(Piece{nil, 0, p.lo + p.n - top})
				continue
			}
		}
		add(p)
	}
	if len(ps) == 0 {
		return c.Const(w, 0)
	}
	if len(ps) == 1 {
		p := ps[0]
		if p.t == nil {
			return c.Const(w, 0)
		}
		if p.t.isConst() {
			return c.Const(w, p.t.k)
		}
		if p.lo == 0 && p.n == p.t.w {
			return p.t
		}
	}
	if len(ps) >= 2 {
		// pieces selected by one condition
		var g *Term
		same := true
		for _, p := range ps {
			if p.t == nil || p.t.isConst() {
				continue
			}
			if p.t.op != OIte || p.lo != 0 || p.n != p.t.w || g != nil && p.t.a != g {
				same = false
				break
			}
			g = p.t.a
		}
		if same && g != nil {
			pb, pc := make([]Piece, len(ps)), make([]Piece, len(ps))
			for i, p := range ps {
				pb[i], pc[i] = p, p
				if p.t != nil && !p.t.isConst() {
					pb[i] = Piece{p.t.b, 0, p.n}
					pc[i] = Piece{p.t.c, 0, p.n}
				}
			}
			return c.Ite(g, c.cat(pb, w), c.cat(pc, w))
		}
	}
	if p := ps[0]; len(ps) == 2 && ps[1].t == nil && p.t != nil && p.lo == 0 && p.t.w == w && p.t.ones&^mask(p.n) == 0 {
		return p.t
	}
	var sb strings.Builder
	for _, p := range ps {
		sb.WriteString(strconv.Itoa(int(tid(p.t))))
		sb.WriteByte(':')
		sb.WriteByte(p.lo)
		sb.WriteByte(p.n)
	}
	key := sb.String()
	if t := c.cats[key]; t != nil {
		return t
	}
	t := &Term{op: OCat, w: w, ps: ps, id: c.n}
	c.n++
	c.setRange(t)
	c.cats[key] = t
	return t
}

// Extract takes n bits starting at lo.
func (c *Ctx) Extract(t *Term, lo, n uint8) *Term {
	if lo == 0 && n == t.w {
		return t
	}
	if t.isConst() {
		return c.Const(n, t.k>>lo)
	}
	if t.op == OIte && (t.b.isConst() || t.c.isConst()) {
		return c.Ite(t.a, c.Extract(t.b, lo, n), c.Extract(t.c, lo, n))
	}
	if lo == 0 {
		switch t.op {
		case OAdd, OSub, OMul, OBAnd, OBOr, OBXor:
			if n <= 32 {
				// single bytes stay whole, so that serialized words recombine
				if r := c.bin(t.op, c.Extract(t.a, 0, n), c.Extract(t.b, 0, n)); n > 8 || r.op != t.op {
					return r
				}
			}
		case OBNot:
			return c.BNot(c.Extract(t.a, 0, n))
		case OSExt:
			if n <= t.a.w {
				return c.Extract(t.a, 0, n)
			}
		}
	}
	return c.cat(slicePieces(c.pieces(t), lo, n), n)
}

func (c *Ctx) ZExt(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	if t.isConst() {
		return c.Const(w, t.k)
	}
	if t.op == OIte && (t.b.isConst() || t.c.isConst()) {
		return c.Ite(t.a, c.ZExt(t.b, w), c.ZExt(t.c, w))
	}
	ps := append(append([]Piece{}, c.pieces(t)...), Piece{nil, 0, w - t.w})
	return c.cat(ps, w)
}

func (c *Ctx) SExt(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	if t.isConst() {
		return c.Const(w, uint64(sext(t.k, t.w)))
	}
	if t.hi < uint64(1)<<(t.w-1) {
		return c.ZExt(t, w)
	}
	if t.op == OIte && (t.b.isConst() || t.c.isConst()) {
		return c.Ite(t.a, c.SExt(t.b, w), c.SExt(t.c, w))
	}
	return c.mk(OSExt, w, t, nil, nil, 0)
}

// Resize converts an integer term between widths.
func (c *Ctx) Resize(t *Term, w uint8, signed bool) *Term {
	switch {
	case t.w == w:
		return t
	case t.w > w:
		return c.Extract(t, 0, w)
	case signed:
		return c.SExt(t, w)
	}
	return c.ZExt(t, w)
}

// ---------------------------------------------------------------- arithmetic

func (c *Ctx) bin(op Op, a, b *Term) *Term {
	switch op {
	case OAdd:
		return c.Add(a, b)
	case OSub:
		return c.Sub(a, b)
	case OMul:
		return c.Mul(a, b)
	case OBAnd:
		return c.BAnd(a, b)
	case OBOr:
		return c.BOr(a, b)
	case OBXor:
		return c.BXor(a, b)
	}
	panic("bin")
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return c.Const(a.w, a.k+b.k)
		}
		if b.k == 0 {
			return a
		}
		if a.op == OAdd && a.b.isConst() {
			return c.Add(a.a, c.Const(a.w, a.b.k+b.k))
		}
		if a.op == OIte && (a.b.isConst() || a.c.isConst()) {
			return c.Ite(a.a, c.Add(a.b, b), c.Add(a.c, b))
		}
	}
	if a.ones&b.ones == 0 {
		if t := c.tryOrPieces(a, b); t != nil {
			return t
		}
	}
	// (x - y) + y
	if a.op == OSub && a.b == b {
		return a.a
	}
	if b.op == OSub && b.b == a {
		return b.a
	}
	if a.op == OAdd && a.b.isConst() && !b.isConst() {
		return c.Add(c.Add(a.a, b), a.b)
	}
	if b.op == OAdd && b.b.isConst() {
		return c.Add(c.Add(a, b.a), b.b)
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAdd, a.w, a, b, nil, 0)
}

func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.Const(a.w, 0)
	}
	if b.isConst() {
		return c.Add(a, c.Const(a.w, -b.k))
	}
	if a.op == OAdd {
		if a.a == b {
			return a.b
		}
		if a.b == b {
			return a.a
		}
		if a.b.isConst() {
			return c.Add(c.Sub(a.a, b), a.b)
		}
	}
	if b.op == OAdd && b.b.isConst() {
		return c.Add(c.Sub(a, b.a), c.Const(a.w, -b.b.k))
	}
	if b.op == OIte && b.b.isConst() && b.c.isConst() {
		return c.Ite(b.a, c.Sub(a, b.b), c.Sub(a, b.c))
	}
	if a.isConst() && a.k == 0 {
		return c.Neg(b)
	}
	return c.mk(OSub, a.w, a, b, nil, 0)
}

func (c *Ctx) Neg(a *Term) *Term {
	if a.isConst() {
		return c.Const(a.w, -a.k)
	}
	if a.op == ONeg {
		return a.a
	}
	return c.mk(ONeg, a.w, a, nil, nil, 0)
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return c.Const(a.w, a.k*b.k)
		}
		if b.k == 0 {
			return b
		}
		if b.k == 1 {
			return a
		}
		if b.k&(b.k-1) == 0 {
			return c.Shl(a, c.Const(a.w, uint64(bits.TrailingZeros64(b.k))))
		}
		if a.op == OIte && (a.b.isConst() || a.c.isConst()) {
			return c.Ite(a.a, c.Mul(a.b, b), c.Mul(a.c, b))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OMul, a.w, a, b, nil, 0)
}

func (c *Ctx) UDiv(a, b *Term) *Term {
	if b.isConst() && b.k != 0 {
		if a.isConst() {
			return c.Const(a.w, a.k/b.k)
		}
		if b.k == 1 {
			return a
		}
		if b.k&(b.k-1) == 0 {
			return c.LShr(a, c.Const(a.w, uint64(bits.TrailingZeros64(b.k))))
		}
	}
	return c.mk(OUDiv, a.w, a, b, nil, 0)
}

func (c *Ctx) URem(a, b *Term) *Term {
	if b.isConst() && b.k != 0 {
		if a.isConst() {
			return c.Const(a.w, a.k%b.k)
		}
		if b.k&(b.k-1) == 0 {
			return c.BAnd(a, c.Const(a.w, b.k-1))
		}
		if a.hi < b.k {
			return a
		}
	}
	return c.mk(OURem, a.w, a, b, nil, 0)
}

func (c *Ctx) SDiv(a, b *Term) *Term {
	h := uint64(1) << (a.w - 1)
	if a.isConst() && b.isConst() && b.k != 0 {
		x, y := sext(a.k, a.w), sext(b.k, b.w)
		if y == -1 {
			return c.Const(a.w, uint64(-x))
		}
		return c.Const(a.w, uint64(x/y))
	}
	if a.hi < h && b.hi < h {
		return c.UDiv(a, b)
	}
	return c.mk(OSDiv, a.w, a, b, nil, 0)
}

func (c *Ctx) SRem(a, b *Term) *Term {
	h := uint64(1) << (a.w - 1)
	if a.isConst() && b.isConst() && b.k != 0 {
		x, y := sext(a.k, a.w), sext(b.k, b.w)
		if y == -1 {
			return c.Const(a.w, 0)
		}
		return c.Const(a.w, uint64(x%y))
	}
	if a.hi < h && b.hi < h {
		return c.URem(a, b)
	}
	return c.mk(OSRem, a.w, a, b, nil, 0)
}

func (c *Ctx) BAnd(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return c.Const(a.w, a.k&b.k)
		}
		if b.k == 0 {
			return b
		}
		if a.ones&^b.k == 0 {
			return a
		}
		if a.op == OIte && (a.b.isConst() || a.c.isConst()) {
			return c.Ite(a.a, c.BAnd(a.b, b), c.BAnd(a.c, b))
		}
		// runs of ones in mask
		runs := 0
		for v, prev := b.k, uint64(0); v != 0 || prev != 0; v >>= 1 {
			if v&1 == 1 && prev == 0 {
				runs++
			}
			prev = v & 1
			if v == 0 {
				break
			}
		}
		if runs <= 4 {
			var out []Piece
			src := c.pieces(a)
			pos := uint8(0)
			for pos < a.w {
				bit := (b.k >> pos) & 1
				e := pos
				for e < a.w && (b.k>>e)&1 == bit {
					e++
				}
				if bit == 0 {
					out = append(out, Piece{nil, 0, e - pos})
				} else {
					out = append(out, slicePieces(src, pos, e-pos)...)
				}
				pos = e
			}
			return c.cat(out, a.w)
		}
	}
	if a.ones&b.ones == 0 {
		return c.Const(a.w, 0)
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OBAnd, a.w, a, b, nil, 0)
}

// tryOrPieces combines terms with disjoint possible-one bits.
func (c *Ctx) tryOrPieces(a, b *Term) *Term {
	pa, pb := alignPieces(c.pieces(a), c.pieces(b))
	// refine by splitting non-cat pieces by zero bits is not attempted
	out := make([]Piece, 0, len(pa))
	zero := func(p Piece) bool {
		return p.t == nil || (p.t.ones>>p.lo)&mask(p.n) == 0
	}
	for i := range pa {
		switch {
		case zero(pb[i]):
			out = append(out, pa[i])
		case zero(pa[i]):
			out = append(out, pb[i])
		default:
			return nil
		}
	}
	return c.cat(out, a.w)
}

func (c *Ctx) BOr(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return c.Const(a.w, a.k|b.k)
		}
		if b.k == 0 {
			return a
		}
		if b.k == mask(a.w) {
			return b
		}
		if a.op == OIte && (a.b.isConst() || a.c.isConst()) {
			return c.Ite(a.a, c.BOr(a.b, b), c.BOr(a.c, b))
		}
	}
	if a.ones&b.ones == 0 {
		if t := c.tryOrPieces(a, b); t != nil {
			return t
		}
	}
	// (x & m) | (x & ^m) style is covered by pieces; normal form otherwise
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OBOr, a.w, a, b, nil, 0)
}

func (c *Ctx) BXor(a, b *Term) *Term {
	if a == b {
		return c.Const(a.w, 0)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return c.Const(a.w, a.k^b.k)
		}
		if b.k == 0 {
			return a
		}
		if b.k == mask(a.w) {
			return c.BNot(a)
		}
		if a.op == OBXor && a.b.isConst() {
			return c.BXor(a.a, c.Const(a.w, a.b.k^b.k))
		}
	}
	if a.ones&b.ones == 0 {
		if t := c.tryOrPieces(a, b); t != nil {
			return t
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OBXor, a.w, a, b, nil, 0)
}

func (c *Ctx) BNot(a *Term) *Term {
	if a.isConst() {
		return c.Const(a.w, ^a.k)
	}
	if a.op == OBNot {
		return a.a
	}
	return c.mk(OBNot, a.w, a, nil, nil, 0)
}

func (c *Ctx) Shl(a, b *Term) *Term {
	if b.isConst() {
		if b.k >= uint64(a.w) {
			return c.Const(a.w, 0)
		}
		if b.k == 0 {
			return a
		}
		if a.isConst() {
			return c.Const(a.w, a.k<<b.k)
		}
		s := uint8(b.k)
		ps := append([]Piece{{nil, 0, s}}, slicePieces(c.pieces(a), 0, a.w-s)...)
		return c.cat(ps, a.w)
	}
	if a.isConst() && a.k == 0 {
		return a
	}
	return c.mk(OShl, a.w, a, b, nil, 0)
}

func (c *Ctx) LShr(a, b *Term) *Term {
	if b.isConst() {
		if b.k >= uint64(a.w) {
			return c.Const(a.w, 0)
		}
		if b.k == 0 {
			return a
		}
		if a.isConst() {
			return c.Const(a.w, a.k>>b.k)
		}
		s := uint8(b.k)
		ps := append(slicePieces(c.pieces(a), s, a.w-s), Piece{nil, 0, s})
		return c.cat(ps, a.w)
	}
	if a.isConst() && a.k == 0 {
		return a
	}
	return c.mk(OLShr, a.w, a, b, nil, 0)
}

func (c *Ctx) AShr(a, b *Term) *Term {
	if a.hi < uint64(1)<<(a.w-1) {
		return c.LShr(a, b)
	}
	if a.isConst() && b.isConst() {
		s := b.k
		if s >= uint64(a.w) {
			s = uint64(a.w) - 1
		}
		return c.Const(a.w, uint64(sext(a.k, a.w)>>s))
	}
	if b.isConst() && b.k == 0 {
		return a
	}
	return c.mk(OAShr, a.w, a, b, nil, 0)
}

// ---------------------------------------------------------------- floats (as bit patterns)

func fparts(w uint8) (ebits, mbits uint8) {
	if w == 32 {
		return 8, 23
	}
	return 11, 52
}

func (c *Ctx) FIsNaN(a *Term) *Term {
	if a.isConst() {
		return c.Bool(isNaNBits(a.k, a.w))
	}
	if a.op == OSIToF || a.op == OUIToF {
		return c.tFalse
	}
	_, mb := fparts(a.w)
	inf := mask(a.w-1) &^ mask(mb)
	if h := uint64(1) << (a.w - 1); a.hi <= inf || a.lo >= h && a.hi <= h|inf {
		return c.tFalse
	}
	return c.Ult(c.Const(a.w-1, inf), c.Extract(a, 0, a.w-1))
}

func isNaNBits(k uint64, w uint8) bool {
	_, mb := fparts(w)
	inf := mask(w-1) &^ mask(mb)
	return k&mask(w-1) > inf
}

// In is a, which the path condition places in [lo,hi].
func (c *Ctx) In(a *Term, lo, hi uint64) *Term {
	if lo == hi {
		return c.Const(a.w, lo)
	}
	return c.mk(OIn, a.w, a, c.Const(a.w, lo), c.Const(a.w, hi), 0)
}

func (c *Ctx) fsign(a *Term) *Term {
	if h := uint64(1) << (a.w - 1); a.hi < h || a.lo >= h {
		return c.Bool(a.lo >= h)
	}
	return c.fsign1(a)
}

func (c *Ctx) fsign1(a *Term) *Term { return c.Eq(c.Extract(a, a.w-1, 1), c.Const(1, 1)) }
func (c *Ctx) fzero(a *Term) *Term {
	if h := uint64(1) << (a.w - 1); a.lo > h || a.lo > 0 && a.hi < h {
		return c.tFalse
	}
 return c.Eq(c.Extract(a, 0, a.w-1), c.Const(a.w-1, 0)) }

func (c *Ctx) FEq(a, b *Term) *Term {
	both0 := c.And(c.fzero(a), c.fzero(b))
	nn := c.And(c.Not(c.FIsNaN(a)), c.Not(c.FIsNaN(b)))
	return c.And(nn, c.Or(c.Eq(a, b), both0))
}

func (c *Ctx) FLt(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Bool(bitsToF(a.k, a.w) < bitsToF(b.k, b.w))
	}
	if t := c.fcmpChain(a, b, false); t != nil {
		return t
	}
	nn := c.And(c.Not(c.FIsNaN(a)), c.Not(c.FIsNaN(b)))
	sa, sb := c.fsign(a), c.fsign(b)
	both0 := c.And(c.fzero(a), c.fzero(b))
	pos := c.Ult(a, b)
	neg := c.Ult(b, a)
	// sa,sb: neg,neg -> b<a ; neg,pos -> not both0 ; pos,neg -> false ; pos,pos -> a<b
	r := c.Ite(sa, c.Ite(sb, neg, c.Not(both0)), c.Ite(sb, c.tFalse, pos))
	return c.And(nn, r)
}

func (c *Ctx) FLe(a, b *Term) *Term {
	if t := c.fcmpChain(a, b, true); t != nil {
		return t
	}
	return c.Or(c.FLt(a, b), c.FEq(a, b))
}

func bitsToF(k uint64, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(k)))
	}
	return math.Float64frombits(k)
}

func fToBits(f float64, w uint8) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func evalF(op Op, a, b uint64, w uint8) uint64 {
	if w == 32 {
		x, y := math.Float32frombits(uint32(a)), math.Float32frombits(uint32(b))
		var r float32
		switch op {
		case OFAdd:
			r = x + y
		case OFSub:
			r = x - y
		case OFMul:
			r = x * y
		case OFDiv:
			r = x / y
		case OFSqrt:
			r = float32(math.Sqrt(float64(x)))
		}
		return uint64(math.Float32bits(r))
	}
	x, y := math.Float64frombits(a), math.Float64frombits(b)
	var r float64
	switch op {
	case OFAdd:
		r = x + y
	case OFSub:
		r = x - y
	case OFMul:
		r = x * y
	case OFDiv:
		r = x / y
	case OFSqrt:
		r = math.Sqrt(x)
	}
	return math.Float64bits(r)
}

func (c *Ctx) FBin(op Op, a, b *Term) *Term {
	if a.isConst() && (b == nil || b.isConst()) {
		var bk uint64
		if b != nil {
			bk = b.k
		}
		return c.Const(a.w, evalF(op, a.k, bk, a.w))
	}
	return c.mk(op, a.w, a, b, nil, 0)
}

func (c *Ctx) FNeg(a *Term) *Term { return c.BXor(a, c.Const(a.w, uint64(1)<<(a.w-1))) }

func evalRnd(k uint64, f float64) float64 {
	switch k {
	case 0:
		return math.RoundToEven(f)
	case 1:
		return math.Trunc(f)
	case 2:
		return math.Ceil(f)
	case 3:
		return math.Floor(f)
	}
	return math.Round(f)
}

func (c *Ctx) FRnd(k uint64, a *Term) *Term {
	if a.isConst() {
		return c.Const(a.w, fToBits(evalRnd(k, bitsToF(a.k, a.w)), a.w))
	}
	if a.op == OSIToF || a.op == OUIToF {
		return a
	}
	return c.mk(OFRnd, a.w, a, nil, nil, k)
}

func (c *Ctx) FToF(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(w, fToBits(bitsToF(a.k, a.w), w))
	}
	if a.op == OFToF && a.a.w == w && w == 32 {
		return a.a
	}
	return c.mk(OFToF, w, a, nil, nil, 0)
}

func f2si(f float64, w uint8) uint64 {
	// amd64 semantics for out of range are implementation-defined
	return uint64(int64(f)) & mask(w)
}
func f2ui(f float64, w uint8) uint64 { return uint64(f) & mask(w) }

// FToI converts float to integer (truncation).
func (c *Ctx) FToI(a *Term, w uint8, signed bool) *Term {
	if a.isConst() {
		f := bitsToF(a.k, a.w)
		if signed {
			return c.Const(w, f2si(f, w))
		}
		return c.Const(w, f2ui(f, w))
	}
	if (a.op == OSIToF || a.op == OUIToF) && a.a.hi < 1<<31 {
		return c.Resize(a.a, w, false)
	}
	if signed {
		return c.mk(OFToSI, w, a, nil, nil, 0)
	}
	return c.mk(OFToUI, w, a, nil, nil, 0)
}

// IToF converts an integer to a float of width w.
func (c *Ctx) IToF(a *Term, w uint8, signed bool) *Term {
	if a.isConst() {
		var f float64
		if signed {
			if w == 32 {
				return c.Const(w, uint64(math.Float32bits(float32(sext(a.k, a.w)))))
			}
			f = float64(sext(a.k, a.w))
		} else {
			if w == 32 {
				return c.Const(w, uint64(math.Float32bits(float32(a.k))))
			}
			f = float64(a.k)
		}
		return c.Const(w, fToBits(f, w))
	}
	if a.op == OIte && a.b.isConst() && a.c.isConst() {
		return c.Ite(a.a, c.IToF(a.b, w, signed), c.IToF(a.c, w, signed))
	}
	if signed && a.hi < uint64(1)<<(a.w-1) {
		signed = false
	}
	if signed {
		return c.mk(OSIToF, w, a, nil, nil, 0)
	}
	return c.mk(OUIToF, w, a, nil, nil, 0)
}

// ---------------------------------------------------------------- evaluation under a model

func (c *Ctx) newModel(m []uint64) {
	c.model = m
	c.stamp++
}

func (c *Ctx) Eval(t *Term) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.stamp == c.stamp {
		return t.ev
	}
	var r uint64
	w := t.w
	switch t.op {
	case OVar:
		if int(t.k) < len(c.model) {
			r = c.model[t.k] & mask(w)
		}
	case OCat:
		sh := uint(0)
		for _, p := range t.ps {
			if p.t != nil {
				r |= ((c.Eval(p.t) >> p.lo) & mask(p.n)) << sh
			}
			sh += uint(p.n)
		}
	case OIn:
		r = c.Eval(t.a)
	case OIte:
		if c.Eval(t.a) != 0 {
			r = c.Eval(t.b)
		} else {
			r = c.Eval(t.c)
		}
	case OAnd:
		r = c.Eval(t.a)
		if r != 0 {
			r = c.Eval(t.b)
		}
	case OOr:
		r = c.Eval(t.a)
		if r == 0 {
			r = c.Eval(t.b)
		}
	default:
		a := c.Eval(t.a)
		var b uint64
		if t.b != nil {
			b = c.Eval(t.b)
		}
		r = evalOp(t, a, b)
	}
	t.ev = r
	t.stamp = c.stamp
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalOp(t *Term, a, b uint64) uint64 {
	w := t.w
	aw := t.a.w
	switch t.op {
	case ONot:
		return 1 - a
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sext(a, aw) < sext(b, aw))
	case OSle:
		return b2u(sext(a, aw) <= sext(b, aw))
	case OAdd:
		return (a + b) & mask(w)
	case OSub:
		return (a - b) & mask(w)
	case OMul:
		return (a * b) & mask(w)
	case OUDiv:
		if b == 0 {
			return mask(w)
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return mask(w)
		}
		if y == -1 {
			return uint64(-x) & mask(w)
		}
		return uint64(x/y) & mask(w)
	case OSRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & mask(w)
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OBNot:
		return ^a & mask(w)
	case ONeg:
		return -a & mask(w)
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & mask(w)
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & mask(w)
	case OSExt:
		return uint64(sext(a, aw)) & mask(w)
	case OFAdd, OFSub, OFMul, OFDiv, OFSqrt:
		return evalF(t.op, a, b, w)
	case OFRnd:
		return fToBits(evalRnd(t.k, bitsToF(a, aw)), w)
	case OFToF:
		return fToBits(bitsToF(a, aw), w)
	case OFToSI:
		return f2si(bitsToF(a, aw), w)
	case OFToUI:
		return f2ui(bitsToF(a, aw), w)
	case OSIToF:
		if w == 32 {
			return uint64(math.Float32bits(float32(sext(a, aw))))
		}
		return math.Float64bits(float64(sext(a, aw)))
	case OUIToF:
		if w == 32 {
			return uint64(math.Float32bits(float32(a)))
		}
		return math.Float64bits(float64(a))
	}
	panic("evalOp " + strconv.Itoa(int(t.op)))
}

// ---------------------------------------------------------------- SMT-LIB printing

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		return "(_ bv" + strconv.FormatUint(t.k, 10) + " " + strconv.Itoa(int(t.w)) + ")"
	case OVar:
		return "v" + strconv.FormatUint(t.k, 10) + "_" + strconv.Itoa(int(t.w))
	}
	return "t" + strconv.Itoa(int(t.id))
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func toFP(t *Term) string {
	// avoid to_ieee_bv round trip for direct FP operands
	return "(" + fpHead(t.w) + " " + t.ref() + ")"
}

func fpHead(w uint8) string {
	if w == 32 {
		return "(_ to_fp 8 24)"
	}
	return "(_ to_fp 11 53)"
}

// body renders the defining expression of a non-leaf term.
func (t *Term) body() string {
	switch t.op {
	case OCat:
		var parts []string
		for i := len(t.ps) - 1; i >= 0; i-- {
			p := t.ps[i]
			switch {
			case p.t == nil:
				parts = append(parts, "(_ bv0 "+strconv.Itoa(int(p.n))+")")
			case p.lo == 0 && p.n == p.t.w:
				parts = append(parts, p.t.ref())
			default:
				parts = append(parts, fmt.Sprintf("((_ extract %d %d) %s)", p.lo+p.n-1, p.lo, p.t.ref()))
			}
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(concat " + strings.Join(parts, " ") + ")"
	case OIn:
		return t.a.ref()
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OFAdd, OFSub, OFMul, OFDiv:
		return "(fp.to_ieee_bv (" + opNames[t.op] + " " + toFP(t.a) + " " + toFP(t.b) + "))"
	case OFSqrt:
		return "(fp.to_ieee_bv (" + opNames[t.op] + " " + toFP(t.a) + "))"
	case OFRnd:
		rm := []string{"RNE", "RTZ", "RTP", "RTN", "RNA"}[t.k]
		return "(fp.to_ieee_bv (fp.roundToIntegral " + rm + " " + toFP(t.a) + "))"
	case OFToF:
		return "(fp.to_ieee_bv (" + fpHead(t.w) + " RNE " + toFP(t.a) + "))"
	case OFToSI:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, toFP(t.a))
	case OFToUI:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.w, toFP(t.a))
	case OSIToF:
		return "(fp.to_ieee_bv (" + fpHead(t.w) + " RNE " + t.a.ref() + "))"
	case OUIToF:
		h := "(_ to_fp_unsigned 11 53)"
		if t.w == 32 {
			h = "(_ to_fp_unsigned 8 24)"
		}
		return "(fp.to_ieee_bv (" + h + " RNE " + t.a.ref() + "))"
	}
	s := "(" + opNames[t.op] + " " + t.a.ref()
	if t.b != nil {
		s += " " + t.b.ref()
	}
	if t.c != nil {
		s += " " + t.c.ref()
	}
	return s + ")"
}

// emitDefs writes declarations/definitions needed by t.
func (c *Ctx) emitDefs(t *Term, gen uint32, sb *strings.Builder) {
	if t.op == OConst || t.defined == gen {
		return
	}
	// iterative post-order to avoid deep recursion
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		x := f.t
		if x.op == OConst || x.defined == gen {
			st = st[:len(st)-1]
			continue
		}
		var child *Term
		found := false
		for !found {
			if x.op == OCat {
				if f.i >= len(x.ps) {
					break
				}
				child = x.ps[f.i].t
			} else {
				if f.i >= 3 {
					break
				}
				switch f.i {
				case 0:
					child = x.a
				case 1:
					child = x.b
				case 2:
					child = x.c
				}
			}
			f.i++
			if child != nil && child.op != OConst && child.defined != gen {
				found = true
			}
		}
		if found {
			st = append(st, fr{child, 0})
			continue
		}
		x.defined = gen
		if x.op == OVar {
			fmt.Fprintf(sb, "(declare-const %s %s)\n", x.ref(), sortName(x.w))
		} else {
			fmt.Fprintf(sb, "(define-fun t%d () %s %s)\n", x.id, sortName(x.w), x.body())
		}
		st = st[:len(st)-1]
	}
}

// collectDefs is emitDefs for a stand-alone script; it reports the variables used.
func (c *Ctx) collectDefs(t *Term, seen map[*Term]bool, sb *strings.Builder, vars *[]*Term) {
	if t.op == OConst || seen[t] {
		return
	}
	// iterative post-order to avoid deep recursion
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		x := f.t
		if x.op == OConst || seen[x] {
			st = st[:len(st)-1]
			continue
		}
		var child *Term
		found := false
		for !found {
			if x.op == OCat {
				if f.i >= len(x.ps) {
					break
				}
				child = x.ps[f.i].t
			} else {
				if f.i >= 3 {
					break
				}
				switch f.i {
				case 0:
					child = x.a
				case 1:
					child = x.b
				case 2:
					child = x.c
				}
			}
			f.i++
			if child != nil && child.op != OConst && !seen[child] {
				found = true
			}
		}
		if found {
			st = append(st, fr{child, 0})
			continue
		}
		seen[x] = true
		if x.op == OVar {
			*vars = append(*vars, x)
			fmt.Fprintf(sb, "(declare-const %s %s)\n", x.ref(), sortName(x.w))
		} else {
			fmt.Fprintf(sb, "(define-fun t%d () %s %s)\n", x.id, sortName(x.w), x.body())
		}
		st = st[:len(st)-1]
	}
}

var opPretty = map[Op]string{OEq: "=", OUlt: "<u", OSlt: "<s", ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OAdd: "+", OSub: "-"}

// dump prints a term to a bounded depth (debugging).
func (t *Term) dump(d int) string {
	switch {
	case t.isConst():
		return fmt.Sprintf("%#x", t.k)
	case d == 0:
		return fmt.Sprintf("t%d", t.id)
	case t.op == OCat:
		s := "cat("
		for i := len(t.ps) - 1; i >= 0; i-- {
			p := t.ps[i]
			if p.t == nil {
				s += fmt.Sprintf(" 0^%d", p.n)
			} else {
				s += fmt.Sprintf(" %s[%d+%d]", p.t.dump(d-1), p.lo, p.n)
			}
		}
		return s + ")"
	case t.a == nil:
		return fmt.Sprintf("v%d", t.id)
	}
	n := opPretty[t.op]
	if n == "" {
		n = fmt.Sprintf("op%d", t.op)
	}
	s := "(" + n
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.dump(d-1)
		}
	}
	return s + ")"
}

package main

import "math"

// A comparison of a constant with a monotone function of one float (a chain of +, -, *, /
// with finite constants, each correctly rounded and so monotone) holds exactly up to, or from,
// some float on, which is found by bisection: the rewriting is exact, rounding included.

type fstep struct {
	op    Op
	k     uint64
	left  bool // the constant is the left operand
	isNeg bool
}

// fchain is the chain of a term down to its root, nil when there is none.
func fchain(t *Term) (root *Term, steps []fstep) {
	for {
		if t.op == OBXor && t.b != nil && t.b.isConst() && t.b.k == uint64(1)<<(t.w-1) {
			steps = append(steps, fstep{isNeg: true})
			t = t.a
			continue
		}
		if t.op != OFAdd && t.op != OFSub && t.op != OFMul && t.op != OFDiv {
			break
		}
		x, y, left := t.a, t.b, false
		if x.isConst() {
			x, y, left = y, x, true
		}
		if x.isConst() || !y.isConst() || t.op == OFDiv && left {
			break
		}
		f := bitsToF(y.k, y.w)
		if math.IsNaN(f) || math.IsInf(f, 0) || f == 0 && (t.op == OFMul || t.op == OFDiv) {
			break
		}
		steps = append(steps, fstep{t.op, y.k, left, false})
		t = x
	}
	return t, steps
}

func runChain(steps []fstep, x uint64, w uint8) uint64 {
	for i := len(steps) - 1; i >= 0; i-- {
		s := steps[i]
		switch {
		case s.isNeg:
			x ^= uint64(1) << (w - 1)
		case s.left:
			x = evalF(s.op, s.k, x, w)
		default:
			x = evalF(s.op, x, s.k, w)
		}
	}
	return x
}

// forder numbers the floats other than NaN in ascending order.
func forder(i int64, w uint8) uint64 {
	if i >= 0 {
		return uint64(i)
	}
	return uint64(-i-1) | uint64(1)<<(w-1)
}

// fcmpChain rewrites cmp(a,b) (a<b, or a<=b with le) when one side is constant and the other a chain.
func (c *Ctx) fcmpChain(a, b *Term, le bool) *Term {
	t, k := a, b
	if a.isConst() {
		t, k = b, a
	}
	if !k.isConst() || t.isConst() || isNaNBits(k.k, k.w) {
		return nil
	}
	root, steps := fchain(t)
	n := 0
	for _, s := range steps {
		if !s.isNeg {
			n++
		}
	}
	if n == 0 {
		return nil
	}
	w := t.w
	d := bitsToF(k.k, w)
	holds := func(i int64) bool {
		f := bitsToF(runChain(steps, forder(i, w), w), w)
		switch {
		case t == a && le:
			return f <= d
		case t == a:
			return f < d
		case le:
			return d <= f
		}
		return d < f
	}
	_, mb := fparts(w)
	inf := int64(mask(w-1) &^ mask(mb))
	lo, hi := -inf-1, inf
	l, h := holds(lo), holds(hi)
	if l == h {
		if l {
			return c.Not(c.FIsNaN(root))
		}
		return c.tFalse
	}
	for uint64(hi-lo) > 1 {
		m := lo + int64(uint64(hi-lo)/2)
		if holds(m) == l {
			lo = m
		} else {
			hi = m
		}
	}
	if l {
		return c.FLe(root, c.Const(w, forder(lo, w)))
	}
	return c.FLe(c.Const(w, forder(hi, w)), root)
}

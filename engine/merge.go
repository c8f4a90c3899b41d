package main

import (
	"golang.org/x/tools/go/ssa"
)

// region describes where the two sides of a conditional join again.
type region struct {
	post *blk // nil: function exit
	live []liveReg
}

type liveReg struct {
	idx int
	v   ssa.Value
}

// side is the outcome of executing one side of a symbolic conditional up to the join.
type side struct {
	ret    Value
	phis   []Value
	regs   []Value
	writes []undoEnt // final values, in first-write order
}

type sideStop struct{}

// mergeRegion executes both sides of a symbolic conditional up to its immediate
// postdominator and merges the resulting states. ok=false: nothing happened, fork instead.
// next=nil with ok: the function returned (fr.ret is set).
func (in *Interp) mergeRegion(fr *frame, b *blk, c *Term) (next *blk, ok bool) {
	if b.abortGen != in.pathNo {
		b.abortGen = in.pathNo
		clear(b.abortCt)
	}
	for i, rg := range b.regions {
		if b.abortCt[i] >= 2 {
			continue
		}
		next, ok = in.mergeAt(fr, b, rg, c)
		if ok {
			return next, true
		}
		b.abortCt[i]++
		fr.b = b
		fr.opi = len(b.ops)
	}
	return nil, false
}

func (in *Interp) mergeAt(fr *frame, b *blk, rg *region, c *Term) (next *blk, ok bool) {
	outer := in.spec == 0
	if outer {
		in.specEnd = in.steps + in.e.h.MergeSteps
		in.llogOn = true
	}
	if in.spec > 1500 {
		return nil, false
	}
	um, lm, pm, om := len(in.ulog), len(in.llog), len(in.pending), len(in.obs)
	depth, st, sp, cur := in.depth, in.stack, in.sp, in.cur
	guard, sideStart, spec := in.guard, in.sideStart, in.spec
	var saved []Value
	saved = append(saved, fr.regs...)
	ret := fr.ret
	defer func() {
		in.guard, in.sideStart, in.spec = guard, sideStart, spec
		if outer {
			in.unlearn(lm)
			in.llogOn = false
			in.guard = nil
		}
		if ok {
			return
		}
		r := recover()
		if r == nil {
			return
		}
		switch r.(type) {
		case specAbort, *TPanic:
		default:
			panic(r)
		}
		in.rollback(um)
		in.unlearn(lm)
		in.pending = in.pending[:pm]
		in.obs = in.obs[:om]
		in.depth, in.stack, in.sp, in.cur = depth, st, sp, cur
		copy(fr.regs, saved)
		fr.ret = ret
		in.st.MergeAborts++
		if !outer && in.steps > in.specEnd {
			in.specFail("merge.go:76")
		}
		next, ok = nil, false
	}()
	in.spec++
	var s [2]side
	for k := 0; k < 2; k++ {
		g := c
		if k == 1 {
			g = in.ctx.Not(c)
			copy(fr.regs, saved)
			fr.ret = ret
		}
		in.guard = g
		if guard != nil {
			in.guard = in.ctx.And(guard, g)
		}
		lmk := len(in.llog)
		in.learn(c, k == 0)
		in.seq++
		in.sideStart = in.seq
		mark := len(in.ulog)
		in.runSide(fr, b, k, rg, &s[k])
		// collect writes and roll back
		if len(in.ulog) > mark {
			seen := map[cellKey]bool{}
			for i := mark; i < len(in.ulog); i++ {
				u := in.ulog[i]
				ck := cellKey{u.o, u.i}
				if !seen[ck] {
					seen[ck] = true
					s[k].writes = append(s[k].writes, undoEnt{u.o, u.i, u.o.cells[u.i], u.t})
				}
			}
			in.rollback(mark)
		}
		in.unlearn(lmk)
		s[k].regs = append([]Value(nil), fr.regs...)
	}
	in.guard, in.sideStart, in.spec = guard, sideStart, spec
	// merge memory
	type mw struct {
		o    *Obj
		i    int
		v    [2]Value
		undo undoEnt
	}
	var ms []mw
	pos := map[cellKey]int{}
	for k := 0; k < 2; k++ {
		for _, w := range s[k].writes {
			ck := cellKey{w.o, w.i}
			p, have := pos[ck]
			if !have {
				p = len(ms)
				pos[ck] = p
				old := w.o.cells[w.i]
				ms = append(ms, mw{w.o, w.i, [2]Value{old, old}, w})
			}
			ms[p].v[k] = w.v
			if ms[p].undo.t == nil {
				ms[p].undo.t = w.t
			}
		}
	}
	vals := make([]Value, len(ms))
	for i := range ms {
		vals[i] = in.mergeVal(c, ms[i].v[0], ms[i].v[1], ms[i].undo.t)
	}
	// merge registers, phis, results
	var regs []Value
	if rg.post == nil {
		ret = in.mergeVal(c, s[0].ret, s[1].ret, resType(fr.code.fn))
	} else {
		regs = make([]Value, len(rg.live))
		for i, l := range rg.live {
			regs[i] = in.mergeVal(c, s[0].regs[l.idx], s[1].regs[l.idx], l.v.Type())
		}
		for i, ph := range rg.post.phiTypes {
			s[0].phis[i] = in.mergeVal(c, s[0].phis[i], s[1].phis[i], ph)
		}
	}
	for i := range ms {
		in.setCell(ms[i].o, ms[i].i, vals[i], ms[i].undo.t)
	}
	copy(fr.regs, saved)
	fr.ret = ret
	if rg.post != nil {
		for i, l := range rg.live {
			fr.regs[l.idx] = regs[i]
		}
		for i := range rg.post.phiTypes {
			fr.regs[rg.post.phiDst[i]] = s[0].phis[i]
		}
	}
	in.st.Merges++
	return rg.post, true
}

type cellKey struct {
	o *Obj
	i int
}

func (in *Interp) rollback(mark int) {
	for i := len(in.ulog) - 1; i >= mark; i-- {
		u := &in.ulog[i]
		u.o.cells[u.i] = u.v
	}
	in.ulog = in.ulog[:mark]
}

// runSide executes from b's k-th successor until the join.
func (in *Interp) runSide(fr *frame, b *blk, k int, rg *region, s *side) {
	e := &b.succ[k]
	for {
		if e.to == rg.post {
			s.phis = make([]Value, len(rg.post.phiTypes))
			for i := range e.phis {
				s.phis[i] = e.phis[i].src.get(fr.regs)
			}
			return
		}
		x := in.takeEdge(fr, e)
		fr.b = x
		for i, op := range x.ops {
			fr.opi = i
			op(fr)
		}
		fr.opi = len(x.ops)
		in.steps += int64(len(x.ops)) + 1
		in.stepCheck()
		switch x.term {
		case tJump:
			e = &x.succ[0]
		case tIf:
			c := x.cond.get(fr.regs)
			v := false
			if c.r == nil {
				v = c.n != 0
			} else {
				t := c.r.(*Term)
				known := false
				if v, known = in.lookup(t); !known {
					next, ok := in.mergeRegion(fr, x, t)
					if !ok {
						in.specFail("merge.go:225")
					}
					if next == nil {
						if rg.post != nil {
							in.specFail("merge.go:229")
						}
						s.ret = fr.ret
						return
					}
					if next == rg.post {
						s.phis = make([]Value, len(next.phiTypes))
						for i := range next.phiTypes {
							s.phis[i] = fr.regs[next.phiDst[i]]
						}
						return
					}
					// continue at next with phis already set: emulate an edge without phis
					e = &edge{to: next}
					continue
				}
			}
			if v {
				e = &x.succ[0]
			} else {
				e = &x.succ[1]
			}
		case tRet:
			if rg.post != nil {
				in.specFail("merge.go:253")
			}
			s.ret = x.retVal(in, fr)
			return
		default:
			in.specFail("merge.go:258")
		}
	}
}

// ---------------------------------------------------------------- postdominators

// loopInfo is a natural loop.
type loopInfo struct {
	head int
	body map[int]bool
	pd   []int
}

func natLoops(fn *ssa.Function) []*loopInfo {
	byHead := map[int]*loopInfo{}
	var res []*loopInfo
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := byHead[s.Index]
			if l == nil {
				l = &loopInfo{head: s.Index, body: map[int]bool{s.Index: true}}
				byHead[s.Index] = l
				res = append(res, l)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[x.Index] {
					continue
				}
				l.body[x.Index] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return res
}

func innermost(ls []*loopInfo, i int) *loopInfo {
	var best *loopInfo
	for _, l := range ls {
		if l.head != i && l.body[i] && (best == nil || len(l.body) < len(best.body)) {
			best = l
		}
	}
	return best
}

// ipdoms computes immediate postdominators; -1 is the virtual exit, -2 unknown.
// Blocks ending in panic are ignored (treated as not reaching the exit).
// With body, the graph is the loop body and the loop head is the exit.
func ipdoms(fn *ssa.Function, body map[int]bool, head *ssa.BasicBlock) []int {
	n := len(fn.Blocks)
	// reverse graph order from exit
	var exits []int
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if head != nil {
			if b == head {
				exits = append(exits, b.Index)
			}
			continue
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			exits = append(exits, b.Index)
		}
	}
	res := make([]int, n)
	for i := range res {
		res[i] = -2
	}
	// iterative dataflow over bitsets (functions are small)
	if n > 600 {
		return res
	}
	words := (n + 63) / 64
	full := make([]uint64, words)
	for i := 0; i < n; i++ {
		full[i/64] |= 1 << (i % 64)
	}
	pd := make([][]uint64, n)
	reach := make([]bool, n) // reaches an exit
	isExit := make([]bool, n)
	for _, e := range exits {
		isExit[e] = true
	}
	// reachability to exit
	work := append([]int{}, exits...)
	for _, e := range exits {
		reach[e] = true
	}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range fn.Blocks[x].Preds {
			if head != nil && !body[p.Index] {
				continue
			}
			if !reach[p.Index] {
				reach[p.Index] = true
				work = append(work, p.Index)
			}
		}
	}
	for i := range pd {
		pd[i] = append([]uint64{}, full...)
		if isExit[i] {
			clear(pd[i])
			pd[i][i/64] |= 1 << (i % 64)
		}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			if isExit[i] || !reach[i] {
				continue
			}
			nw := append([]uint64{}, full...)
			for _, s := range fn.Blocks[i].Succs {
				if !reach[s.Index] {
					continue
				}
				for w := range nw {
					nw[w] &= pd[s.Index][w]
				}
			}
			nw[i/64] |= 1 << (i % 64)
			for w := range nw {
				if nw[w] != pd[i][w] {
					changed = true
				}
			}
			pd[i] = nw
		}
	}
	count := func(x []uint64) int {
		c := 0
		for i := 0; i < n; i++ {
			if x[i/64]>>(i%64)&1 == 1 {
				c++
			}
		}
		return c
	}
	for i := 0; i < n; i++ {
		if !reach[i] {
			continue
		}
		// immediate postdominator: the strict postdominator with the most postdominators
		best, bc := -1, 0
		for j := 0; j < n; j++ {
			if j != i && pd[i][j/64]>>(j%64)&1 == 1 {
				if c := count(pd[j]); c > bc {
					best, bc = j, c
				}
			}
		}
		res[i] = best
	}
	return res
}

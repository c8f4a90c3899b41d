package main

// A per-path graph of the order facts (unsigned and signed comparisons, equalities) in the
// path condition. Conditions implied by transitivity are decided without a solver query.

type ordEdge struct {
	to     *Term
	strict bool
}

type ordGraph struct {
	out   map[*Term][]ordEdge
	konst []*Term // constant nodes
	cw    map[*Term]bool
	log   []ordUndo
	seen  map[*Term]uint8
	queue []ordItem
}

type ordItem struct {
	t      *Term
	strict bool
}

type ordUndo struct {
	from *Term
	cst  bool
}

func newOrdGraph() *ordGraph {
	return &ordGraph{out: map[*Term][]ordEdge{}, cw: map[*Term]bool{}, seen: map[*Term]uint8{}}
}

func (g *ordGraph) node(t *Term) {
	if t.isConst() && !g.cw[t] {
		g.cw[t] = true
		g.konst = append(g.konst, t)
		g.log = append(g.log, ordUndo{t, true})
	}
}

func (g *ordGraph) edge(a, b *Term, strict bool) {
	g.node(a)
	g.node(b)
	if a.isConst() && b.isConst() {
		return
	}
	g.out[a] = append(g.out[a], ordEdge{b, strict})
	g.log = append(g.log, ordUndo{a, false})
}

func (g *ordGraph) undo(mark int) {
	for i := len(g.log) - 1; i >= mark; i-- {
		u := g.log[i]
		if u.cst {
			delete(g.cw, u.from)
			g.konst = g.konst[:len(g.konst)-1]
		} else {
			l := g.out[u.from]
			g.out[u.from] = l[:len(l)-1]
		}
	}
	g.log = g.log[:mark]
}

// reach: 0 nothing known, 1 a<=b, 2 a<b.
func (g *ordGraph) reach(a, b *Term, less func(x, y *Term) bool) int {
	if a.isConst() && b.isConst() {
		if less(a, b) {
			return 2
		}
		if a == b {
			return 1
		}
		return 0
	}
	clear(g.seen)
	q := append(g.queue[:0], ordItem{a, false})
	best := 0
	for i := 0; i < len(q) && best < 2; i++ {
		it := q[i]
		bit := uint8(1)
		if it.strict {
			bit = 2
		}
		if g.seen[it.t] >= bit {
			continue
		}
		g.seen[it.t] = bit
		if it.t == b {
			best = max(best, int(bit))
			continue
		}
		if it.t.isConst() {
			if b.isConst() {
				if less(it.t, b) {
					best = 2
					break
				}
				continue // larger constants only lead further away
			}
			for _, k := range g.konst {
				if k.w == it.t.w && less(it.t, k) && g.seen[k] < 2 && len(g.out[k]) > 0 {
					q = append(q, ordItem{k, true})
				}
			}
		}
		for _, e := range g.out[it.t] {
			s := it.strict || e.strict
			nb := uint8(1)
			if s {
				nb = 2
			}
			if g.seen[e.to] < nb {
				q = append(q, ordItem{e.to, s})
			}
		}
	}
	g.queue = q[:0]
	return best
}

func uLess(x, y *Term) bool { return x.k < y.k }
func sLess(x, y *Term) bool { return sext(x.k, x.w) < sext(y.k, y.w) }

// ordLearn records an order fact.
func (in *Interp) ordLearn(c *Term, val bool) {
	switch c.op {
	case OUlt:
		if val {
			in.ordU.edge(c.a, c.b, true)
			// a < b: a is not the largest value of b, b is not the smallest value of a
			if !c.a.isConst() {
				in.learnNe(c.a, c.b.hi)
			}
			if !c.b.isConst() {
				in.learnNe(c.b, c.a.lo)
			}
		} else {
			in.ordU.edge(c.b, c.a, false)
		}
	case OSlt:
		if val {
			in.ordS.edge(c.a, c.b, true)
		} else {
			in.ordS.edge(c.b, c.a, false)
		}
	case OEq:
		if val && c.a.w > 1 {
			in.ordU.edge(c.a, c.b, false)
			in.ordU.edge(c.b, c.a, false)
			in.ordS.edge(c.a, c.b, false)
			in.ordS.edge(c.b, c.a, false)
		}
	}
}

func (in *Interp) learnNe(t *Term, k uint64) {
	e := in.ctx.Eq(t, in.ctx.Const(t.w, k))
	if e.isConst() || e.op != OEq {
		return
	}
	if v, ok := in.known[e]; !ok || v {
		in.learn(e, false)
	}
}

// ordLookup decides an order condition from the recorded facts.
func (in *Interp) ordLookup(c *Term) (bool, bool) {
	switch c.op {
	case OUlt, OSlt:
		g, less := in.ordU, uLess
		if c.op == OSlt {
			g, less = in.ordS, sLess
		}
		if len(g.log) == 0 {
			return false, false
		}
		f := g.reach(c.a, c.b, less)
		if f == 2 {
			return true, true
		}
		if b := g.reach(c.b, c.a, less); b > 0 {
			return false, true
		}
		if f == 1 {
			if v, ok := in.known[in.ctx.Eq(c.a, c.b)]; ok && !v {
				return true, true
			}
		}
	case OEq:
		if c.a.w <= 1 {
			return false, false
		}
		if len(in.ordU.log) > 0 {
			f, b := in.ordU.reach(c.a, c.b, uLess), in.ordU.reach(c.b, c.a, uLess)
			if f == 2 || b == 2 {
				return false, true
			}
			if f == 1 && b == 1 {
				return true, true
			}
		}
		if len(in.ordS.log) > 0 {
			f, b := in.ordS.reach(c.a, c.b, sLess), in.ordS.reach(c.b, c.a, sLess)
			if f == 2 || b == 2 {
				return false, true
			}
			if f == 1 && b == 1 {
				return true, true
			}
		}
	}
	return false, false
}

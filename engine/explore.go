package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Dec is one recorded decision. flag: 0 false, 1 true, 2 forced false, 3 forced true.
type Dec struct {
	flag uint8
	val  uint64
	loc  uint32
}

type decNode struct {
	parent *decNode
	d      Dec
	depth  int
}

func (n *decNode) slice() []Dec {
	if n == nil {
		return nil
	}
	r := make([]Dec, n.depth)
	for x := n; x != nil; x = x.parent {
		r[x.depth-1] = x.d
	}
	return r
}

// work is an unexplored prefix together with a model satisfying it.
type work struct {
	pre   *decNode
	model []uint64
}

// Violation is a counterexample.
type Violation struct {
	Harness string
	Args    []int64
	Label   string
	Kind    string // assert | panic
	Detail  string
	Inputs  []Input
	Model   []uint64
}

type Input struct {
	Name string `json:"name"`
	W    int    `json:"w"`
	Val  uint64 `json:"val"`
}

// PathSample is a completed path with its concrete inputs and observations.
type PathSample struct {
	Inputs []Input  `json:"inputs"`
	Obs    []uint64 `json:"obs"`
}

// Stats of one harness exploration.
type Stats struct {
	Paths, Finished, Decisions, Forced, Asserts, AssertConst int64
	Cut                                                      map[string]int64
	Queries, NSat, NUnsat, NUnk                              int64
	SolverTime                                               time.Duration
	MaxQuery                                                 time.Duration
	Steps                                                    int64
	Wall                                                     time.Duration
	Complete                                                 bool
	Covers                                                   map[string]int64
	Funcs                                                    map[string]bool
	Errs                                                     []string
	Merges, MergeAborts                                      int64
}

type abortKind int

const (
	abAssume abortKind = iota
	abUnsupported
	abBudget
	abUnwind
	abDone
	abStop
)

type pathAbort struct {
	kind abortKind
	msg  string
}

type specAbort struct{}

// specFail gives up on the current if-conversion.
func (in *Interp) specFail(why string) {
	if trace {
		traceMu.Lock()
		traceAbort[why+" @ "+in.where()]++
		traceMu.Unlock()
	}
	panic(specAbort{})
}

var (
	trace      = os.Getenv("GOSYM_TRACE") != ""
	traceMu    sync.Mutex
	traceAbort = map[string]int{}
	traceFork  = map[string]int{}
)

func (in *Interp) traceForkAt() {
	if trace {
		traceMu.Lock()
		traceFork[in.where()]++
		traceMu.Unlock()
	}
}

func dumpTrace() {
	if !trace {
		return
	}
	for _, m := range []map[string]int{traceAbort, traceFork} {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] })
		for i, k := range ks {
			if i < 25 {
				fmt.Println("  TRACE", m[k], k)
			}
		}
		fmt.Println("  --")
	}
}

// Explorer runs one harness over all paths with several workers.
type Explorer struct {
	eng       *Engine
	h         *HarnessRun
	mu        sync.Mutex
	queue     []work
	idle      int
	nworkers  int
	cond      *sync.Cond
	stop      atomic.Bool
	viol      []Violation
	stats     Stats
	samples   []PathSample
	deadline  time.Time
	maxPaths  int64
	paths     atomic.Int64
	violStop  bool
	violCount map[string]int
	nknown    int
	violAt    atomic.Int64
}

func (e *Explorer) push(w work) {
	e.mu.Lock()
	e.queue = append(e.queue, w)
	e.cond.Signal()
	e.mu.Unlock()
}

func (e *Explorer) hungry() bool { // racy read is fine
	return e.idle > 0 && len(e.queue) == 0
}

func (e *Explorer) take() (work, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop.Load() {
			return work{}, false
		}
		if n := len(e.queue); n > 0 {
			w := e.queue[0]
			e.queue = e.queue[1:]
			return w, true
		}
		e.idle++
		if e.idle == e.nworkers {
			e.stop.Store(true)
			e.cond.Broadcast()
			return work{}, false
		}
		e.cond.Wait()
		e.idle--
	}
}

func (e *Explorer) timeUp() bool { return e.left() < 0 }

// left is the time remaining: once a violation is found, little more is spent.
func (e *Explorer) left() time.Duration {
	d := time.Until(e.deadline)
	if v := e.violAt.Load(); v != 0 {
		d = min(d, time.Until(time.Unix(0, v).Add(10*time.Second)))
	}
	return d
}

// Run explores all paths.
func (e *Explorer) Run(pool *WorkerPool) {
	e.cond = sync.NewCond(&e.mu)
	t0 := time.Now()
	e.stats.Cut = map[string]int64{}
	e.stats.Covers = map[string]int64{}
	e.stats.Funcs = map[string]bool{}
	e.violCount = map[string]int{}
	e.queue = []work{{}}
	timedOut := atomic.Bool{}
	done := make(chan struct{})
	go func() {
		tk := time.NewTicker(100 * time.Millisecond)
		defer tk.Stop()
		for {
			select {
			case <-done:
				return
			case <-tk.C:
				if e.timeUp() {
					timedOut.Store(true)
					e.stop.Store(true)
					e.mu.Lock()
					e.cond.Broadcast()
					e.mu.Unlock()
					return
				}
			}
		}
	}()
	var wg sync.WaitGroup
	e.nworkers = pool.n
	for i := 0; i < pool.n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			in := pool.get(i)
			in.explore(e)
		}(i)
	}
	wg.Wait()
	close(done)
	e.stats.Wall = time.Since(t0)
	e.stats.Complete = !timedOut.Load() && !e.violStop
	if timedOut.Load() {
		e.stats.Cut["time budget exhausted"]++
	}
}

// WorkerPool lazily creates interpreters (each with its own heap and solver).
type WorkerPool struct {
	eng *Engine
	n   int
	ins []*Interp
	mu  sync.Mutex
}

func (p *WorkerPool) get(i int) *Interp {
	p.mu.Lock()
	in := p.ins[i]
	p.mu.Unlock()
	if in == nil {
		in = newInterp(p.eng)
		p.mu.Lock()
		p.ins[i] = in
		p.mu.Unlock()
	}
	return in
}

func (p *WorkerPool) closeAll() {
	for _, in := range p.ins {
		if in != nil && in.solver != nil {
			in.solver.stop()
		}
	}
}

// explore is the worker loop.
func (in *Interp) explore(e *Explorer) {
	in.e = e
	in.local = nil
	in.merge = e.h.Merge
	in.ensureSetup(e.h)
	if in.solver == nil {
		in.solver = newSolver(in.ctx, e.h.QueryTimeoutMs)
	}
	in.solver.timeout = e.h.QueryTimeoutMs
	in.solver.left = e.left
	q0, s0, u0, k0, d0 := in.solver.queries, in.solver.nsat, in.solver.nunsat, in.solver.nunk, in.solver.dur
	in.solver.maxDur = 0
	in.st = Stats{Cut: map[string]int64{}, Covers: map[string]int64{}, Funcs: map[string]bool{}}
	in.markFuncs = map[*ssa.Function]bool{}
	for {
		var w work
		if n := len(in.local); n > 0 {
			if e.stop.Load() {
				break
			}
			if n > 1 && e.hungry() {
				// share the shallowest half
				h := n / 2
				e.mu.Lock()
				e.queue = append(e.queue, in.local[:h]...)
				e.cond.Broadcast()
				e.mu.Unlock()
				in.local = append([]work{}, in.local[h:]...)
				n = len(in.local)
			}
			w = in.local[n-1]
			in.local = in.local[:n-1]
		} else {
			var ok bool
			w, ok = e.take()
			if !ok {
				break
			}
		}
		in.runPath(w)
	}
	if len(in.local) > 0 {
		in.st.Cut["paths left unexplored"] += int64(len(in.local))
		in.local = nil
	}
	in.st.Queries = in.solver.queries - q0
	in.st.NSat = in.solver.nsat - s0
	in.st.NUnsat = in.solver.nunsat - u0
	in.st.NUnk = in.solver.nunk - k0
	in.st.SolverTime = in.solver.dur - d0
	e.mu.Lock()
	defer e.mu.Unlock()
	s := &e.stats
	s.Paths += in.st.Paths
	s.Finished += in.st.Finished
	s.Decisions += in.st.Decisions
	s.Forced += in.st.Forced
	s.Asserts += in.st.Asserts
	s.AssertConst += in.st.AssertConst
	s.Queries += in.st.Queries
	s.NSat += in.st.NSat
	s.NUnsat += in.st.NUnsat
	s.NUnk += in.st.NUnk
	s.SolverTime += in.st.SolverTime
	s.MaxQuery = max(s.MaxQuery, in.solver.maxDur)
	s.Steps += in.st.Steps
	s.Merges += in.st.Merges
	s.MergeAborts += in.st.MergeAborts
	for k, v := range in.st.Cut {
		s.Cut[k] += v
	}
	for k, v := range in.st.Covers {
		s.Covers[k] += v
	}
	for f := range in.markFuncs {
		s.Funcs[f.String()] = true
	}
	s.Errs = append(s.Errs, in.solver.errs...)
	in.solver.errs = nil
}

// runPath executes one path from the start following the prefix.
func (in *Interp) runPath(w work) {
	in.prefix = w.pre.slice()
	in.preNode = w.pre
	in.curNode = nil
	in.decIdx = 0
	in.pc = in.pc[:0]
	in.known = map[*Term]bool{}
	in.ordU, in.ordS = newOrdGraph(), newOrdGraph()
	in.kc = map[*Term]uint64{}
	in.nvars = 0
	in.pending = in.pending[:0]
	in.obs = in.obs[:0]
	in.steps = 0
	in.spec = 0
	in.allocLim = 0
	in.guard = nil
	in.depth = 0
	in.sp = 0
	in.inPath = true
	if in.ctx.n > 4_000_000 {
		// bound memory: drop all terms and restart the solver
		*in.ctx = *newCtx()
		in.solver.restart()
	}
	in.ctx.newModel(w.model)
	if len(in.prefix) > 0 {
		in.replayTo = in.preNode
	}
	nd := len(in.prefix)
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case *pathAbort:
				switch x.kind {
				case abAssume:
					in.st.Cut["(assume)"]++
					in.flushAsserts()
				case abUnsupported:
					in.st.Cut["unsupported: "+x.msg]++
				case abBudget:
					in.st.Cut["step budget: "+x.msg]++
					in.flushAsserts()
					in.report("hang", "does not terminate: "+x.msg, "", append([]uint64{}, in.ctx.model...))
				case abUnwind:
					in.st.Cut["decision bound: "+x.msg]++
				case abStop:
				case abDone:
				}
			case *TPanic:
				in.flushAsserts()
				in.report("panic", x.label(in), x.detail(in), append([]uint64{}, in.ctx.model...))
			default:
				if os.Getenv("GOSYM_DEBUG") != "" {
					panic(r)
				}
				in.st.Cut[fmt.Sprintf("internal: %v at %s", r, in.where())]++
			}
		}()
		in.callHarness()
		in.flushAsserts()
		in.st.Finished++
		in.finishPath()
	}()
	in.inPath = false
	in.undo()
	in.st.Paths++
	in.st.Decisions += int64(in.decIdx - min(nd, in.decIdx))
	in.st.Steps += in.steps
	n := in.e.paths.Add(1)
	if in.e.maxPaths > 0 && n >= in.e.maxPaths {
		if !in.e.stop.Load() {
			in.e.stop.Store(true)
			in.st.Cut["path budget exhausted"]++
			in.e.mu.Lock()
			in.e.cond.Broadcast()
			in.e.mu.Unlock()
		}
	}
}

func (in *Interp) inputs(model []uint64) []Input {
	r := make([]Input, in.nvars)
	for i := 0; i < in.nvars; i++ {
		vi := in.ctx.vinfo[i]
		v := uint64(0)
		if i < len(model) {
			v = model[i] & mask(vi.W)
		}
		r[i] = Input{vi.Name, int(vi.W), v}
	}
	return r
}

func (in *Interp) finishPath() {
	e := in.e
	if e.h.Samples == 0 {
		return
	}
	if len(e.samples) >= e.h.Samples {
		return
	}
	obs := make([]uint64, len(in.obs))
	for i, o := range in.obs {
		obs[i] = in.ctx.Eval(o)
	}
	s := PathSample{in.inputs(in.ctx.model), obs}
	e.mu.Lock()
	if len(e.samples) < e.h.Samples {
		e.samples = append(e.samples, s)
	}
	e.mu.Unlock()
}

func (in *Interp) report(kind, label, detail string, model []uint64) {
	e := in.e
	e.mu.Lock()
	defer e.mu.Unlock()
	key := kind + "|" + label
	e.violCount[key]++
	if e.violCount[key] > 2 {
		return
	}
	if e.h.known != nil && e.h.known(label, detail) {
		if e.violCount[key] > 1 {
			return
		}
		e.nknown++
	} else {
		e.violAt.CompareAndSwap(0, time.Now().UnixNano())
	}
	e.viol = append(e.viol, Violation{Harness: e.h.Name, Args: e.h.Args, Label: label, Kind: kind, Detail: detail,
		Inputs: in.inputs(model), Model: model})
	if len(e.viol)-e.nknown >= e.h.MaxViol {
		e.violStop = true
		e.stop.Store(true)
		e.cond.Broadcast()
	}
}

type pendingAssert struct {
	c     *Term
	label string
}

// flushAsserts discharges the pending assertions under the current path condition.
func (in *Interp) flushAsserts() {
	for len(in.pending) > 0 {
		bad := in.ctx.tFalse
		for _, p := range in.pending {
			bad = in.ctx.Or(bad, in.ctx.Not(p.c))
		}
		// the current model may already violate one
		if in.modelOK() && in.ctx.Eval(bad) == 1 {
			m := append([]uint64{}, in.ctx.model...)
			in.reportFailing(m)
			continue
		}
		res, m := in.solver.Check(in.pc, bad, true)
		switch res {
		case Unsat:
			in.pending = in.pending[:0]
			return
		case Unknown:
			// try one by one
			for _, p := range in.pending {
				r1, m1 := in.solver.Check(in.pc, in.ctx.Not(p.c), true)
				switch r1 {
				case Unknown:
					in.st.Cut["solver unknown on assertion: "+p.label]++
				case Sat:
					in.report("assert", p.label, "", m1)
				}
			}
			in.pending = in.pending[:0]
			return
		}
		saved := in.ctx.model
		in.ctx.newModel(m)
		in.reportFailing(m)
		in.ctx.newModel(saved)
	}
}

func (in *Interp) reportFailing(m []uint64) {
	var rest []pendingAssert
	found := false
	for _, p := range in.pending {
		if in.ctx.Eval(p.c) == 0 {
			if !found {
				in.report("assert", p.label, "", m)
				found = true
			}
			continue
		}
		rest = append(rest, p)
	}
	if !found {
		in.st.Cut["internal: failing assertion not found in model"]++
		rest = nil
	}
	in.pending = append(in.pending[:0], rest...)
}

func (in *Interp) modelOK() bool { return in.decIdx >= len(in.prefix) }

func (in *Interp) addDec(d Dec) {
	depth := 1
	if in.curNode != nil {
		depth = in.curNode.depth + 1
	}
	in.curNode = &decNode{in.curNode, d, depth}
	in.decIdx++
}

// learn records a condition that holds on this path.
func (in *Interp) learn(c *Term, val bool) {
	if in.llogOn {
		old, had := in.known[c]
		in.llog = append(in.llog, learnUndo{c: c, had: had, val: old, ou: len(in.ordU.log), os: len(in.ordS.log)})
	}
	in.known[c] = val
	in.ordLearn(c, val)
	if val {
		switch c.op {
		case ONot:
			in.learn(c.a, false)
		case OAnd:
			in.learn(c.a, true)
			in.learn(c.b, true)
		case OEq:
			if c.b.isConst() {
				in.setKC(c.a, c.b.k)
				if c.a.op == OCat && len(c.a.ps) == 2 && c.a.ps[1].t == nil && c.a.ps[0].t != nil {
					in.setKC(in.ctx.fromPiece(c.a.ps[0]), c.b.k)
				}
			}
		}
	} else {
		switch c.op {
		case ONot:
			in.learn(c.a, true)
		case OOr:
			in.learn(c.a, false)
			in.learn(c.b, false)
		}
	}
}

func (in *Interp) setKC(t *Term, k uint64) {
	if in.llogOn {
		old, had := in.kc[t]
		in.llog = append(in.llog, learnUndo{c: t, had: had, isK: true, k: old})
	}
	in.kc[t] = k
}

// unlearn rolls back scoped facts.
func (in *Interp) unlearn(mark int) {
	for i := len(in.llog) - 1; i >= mark; i-- {
		u := in.llog[i]
		if !u.isK {
			in.ordU.undo(u.ou)
			in.ordS.undo(u.os)
		}
		switch {
		case u.isK && u.had:
			in.kc[u.c] = u.k
		case u.isK:
			delete(in.kc, u.c)
		case u.had:
			in.known[u.c] = u.val
		default:
			delete(in.known, u.c)
		}
	}
	in.llog = in.llog[:mark]
}

func (in *Interp) locID() uint32 {
	f := in.cur
	if f == nil || f.b == nil {
		return 0
	}
	return f.b.id*64 + uint32(f.opi&63)
}

func (in *Interp) assumePC(c *Term) {
	in.pc = append(in.pc, c)
	in.learn(c, true)
}

// lookup decides a condition from what is already known.
func (in *Interp) lookup(c *Term) (bool, bool) {
	if c.isConst() {
		return c.k == 1, true
	}
	if v, ok := in.known[c]; ok {
		return v, true
	}
	switch c.op {
	case ONot:
		if v, ok := in.lookup(c.a); ok {
			return !v, true
		}
	case OAnd:
		v1, o1 := in.lookup(c.a)
		if o1 && !v1 {
			return false, true
		}
		v2, o2 := in.lookup(c.b)
		if o2 && !v2 {
			return false, true
		}
		if o1 && o2 {
			return true, true
		}
	case OOr:
		v1, o1 := in.lookup(c.a)
		if o1 && v1 {
			return true, true
		}
		v2, o2 := in.lookup(c.b)
		if o2 && v2 {
			return true, true
		}
		if o1 && o2 {
			return false, true
		}
	case OEq:
		if k, ok := in.kc[c.a]; ok && c.b.isConst() {
			return k == c.b.k, true
		}
		if k, ok := in.kc[c.a]; ok {
			if k2, ok2 := in.kc[c.b]; ok2 {
				return k == k2, true
			}
		}
	case OUlt:
		x, o1 := in.constOf(c.a)
		y, o2 := in.constOf(c.b)
		if o1 && o2 {
			return x < y, true
		}
	case OSlt:
		x, o1 := in.constOf(c.a)
		y, o2 := in.constOf(c.b)
		if o1 && o2 {
			return sext(x, c.a.w) < sext(y, c.a.w), true
		}
	case OIte:
		if v, ok := in.lookup(c.a); ok {
			if v {
				return in.lookup(c.b)
			}
			return in.lookup(c.c)
		}
		v1, o1 := in.lookup(c.b)
		if o1 {
			if v2, o2 := in.lookup(c.c); o2 && v1 == v2 {
				return v1, true
			}
		}
		return false, false
	}
	return in.ordLookup(c)
}

func (in *Interp) constOf(t *Term) (uint64, bool) {
	if t.isConst() {
		return t.k, true
	}
	k, ok := in.kc[t]
	return k, ok
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (in *Interp) branch(c *Term) bool {
	if v, ok := in.lookup(c); ok {
		return v
	}
	if in.spec > 0 {
		in.specFail("explore.go:667")
	}
	return in.decide(c, 0)
}

func (in *Interp) decide(c *Term, val uint64) bool {
	if !in.inPath {
		panic(&pathAbort{abUnsupported, "symbolic branch outside a path"})
	}
	if in.decIdx < len(in.prefix) {
		d := in.prefix[in.decIdx]
		if d.loc != in.locID() {
			panic(&pathAbort{abUnsupported, "internal: replay divergence at " + in.where()})
		}
		in.addDec(d)
		v := d.flag&1 == 1
		if d.flag < 2 {
			if v {
				in.assumePC(c)
			} else {
				in.assumePC(in.ctx.Not(c))
			}
		} else {
			in.learn(c, v)
		}
		return v
	}
	if in.decIdx >= in.e.h.MaxDecisions {
		panic(&pathAbort{abUnwind, in.where()})
	}
	if in.e.stop.Load() {
		panic(&pathAbort{abStop, ""})
	}
	side := in.ctx.Eval(c) == 1
	other := c
	if side {
		other = in.ctx.Not(c)
	}
	res, m := in.solver.Check(in.pc, other, true)
	if res == Unsat {
		in.st.Forced++
		if os.Getenv("GOSYM_FORCED") != "" {
			fmt.Fprintln(os.Stderr, "FORCED", c.dump(12), side, "\n  PC:")
			for _, p := range in.pc {
				fmt.Fprintln(os.Stderr, "    ", p.dump(6))
			}
		}
		f := uint8(2)
		if side {
			f = 3
		}
		in.addDec(Dec{f, val, in.locID()})
		in.learn(c, side)
		return side
	}
	par := in.curNode
	depth := 1
	if par != nil {
		depth = par.depth + 1
	}
	if res == Unknown {
		in.st.Cut["solver unknown on branch at "+in.where()]++
	} else {
		in.traceForkAt()
		in.local = append(in.local, work{&decNode{par, Dec{uint8(b2u(!side)), val, in.locID()}, depth}, m})
	}
	in.addDec(Dec{uint8(b2u(side)), val, in.locID()})
	if side {
		in.assumePC(c)
	} else {
		in.assumePC(in.ctx.Not(c))
	}
	return side
}

// concretize picks a concrete value for t, forking over all feasible values.
func (in *Interp) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.k
	}
	if k, ok := in.kc[t]; ok {
		return k
	}
	if in.spec > 0 {
		in.specFail("explore.go:744")
	}
	for tries := 0; ; tries++ {
		var cand uint64
		if in.decIdx < len(in.prefix) {
			cand = in.prefix[in.decIdx].val
		} else {
			cand = in.ctx.Eval(t)
		}
		c := in.ctx.Eq(t, in.ctx.Const(t.w, cand))
		var taken bool
		v, ok := c.isTrue(), c.isConst()
		if !ok {
			v, ok = in.known[c]
		}
		if ok {
			// every try consumes one decision, so that replay sees the same candidates
			if !v {
				panic(&pathAbort{abUnsupported, "concretize: inconsistent candidate"})
			}
			taken = true
			if in.decIdx < len(in.prefix) {
				if in.prefix[in.decIdx].loc != in.locID() {
					panic(&pathAbort{abUnsupported, "internal: replay divergence at " + in.where()})
				}
				in.addDec(in.prefix[in.decIdx])
			} else {
				in.addDec(Dec{3, cand, in.locID()})
			}
		} else {
			taken = in.decide(c, cand)
		}
		if taken {
			in.setKC(t, cand)
			return cand
		}
		if tries > in.e.h.MaxConcretize {
			panic(&pathAbort{abUnwind, "concretization fan-out at " + in.where()})
		}
	}
}

// chooseN forks over the values of a fresh input in [0,n); no query is needed.
func (in *Interp) chooseN(name string, n uint64) uint64 {
	if in.spec > 0 {
		in.specFail("choose")
	}
	if !in.inPath {
		panic("Choose outside a path")
	}
	idx := in.nvars
	t := in.ctx.Var(idx, 64, name)
	in.nvars++
	if n == 0 || int64(n) < 0 {
		panic(&pathAbort{abAssume, ""})
	}
	withVal := func(v uint64) []uint64 {
		m := append([]uint64{}, in.ctx.model...)
		for len(m) <= idx {
			m = append(m, 0)
		}
		m[idx] = v
		return m
	}
	pick := func(v uint64) uint64 {
		if in.decIdx >= len(in.prefix) && (idx >= len(in.ctx.model) && v != 0 || idx < len(in.ctx.model) && in.ctx.model[idx] != v) {
			in.ctx.newModel(withVal(v))
		}
		in.assumePC(in.ctx.Eq(t, in.ctx.Const(64, v)))
		return v
	}
	for v := uint64(0); v < n-1; v++ {
		if in.decIdx < len(in.prefix) {
			d := in.prefix[in.decIdx]
			if d.loc != in.locID() || d.val != v {
				panic(&pathAbort{abUnsupported, "internal: replay divergence at " + in.where()})
			}
			in.addDec(d)
			if d.flag&1 == 1 {
				return pick(v)
			}
			continue
		}
		if in.decIdx >= in.e.h.MaxDecisions {
			panic(&pathAbort{abUnwind, in.where()})
		}
		if in.e.stop.Load() {
			panic(&pathAbort{abStop, ""})
		}
		par, depth := in.curNode, 1
		if par != nil {
			depth = par.depth + 1
		}
		in.traceForkAt()
		in.local = append(in.local, work{&decNode{par, Dec{0, v, in.locID()}, depth}, withVal(v + 1)})
		in.addDec(Dec{1, v, in.locID()})
		return pick(v)
	}
	return pick(n - 1)
}

// assume adds a harness assumption.
func (in *Interp) assume(c *Term) {
	if v, ok := in.lookup(c); ok {
		if v {
			return
		}
		panic(&pathAbort{abAssume, ""})
	}
	if in.spec > 0 {
		in.specFail("explore.go:788")
	}
	if in.decIdx < len(in.prefix) {
		in.assumePC(c)
		return
	}
	in.flushAsserts()
	if in.ctx.Eval(c) != 1 {
		res, m := in.solver.Check(in.pc, c, true)
		if res == Unsat {
			panic(&pathAbort{abAssume, ""})
		}
		if res == Unknown {
			in.st.Cut["solver unknown on assumption at "+in.where()]++
			panic(&pathAbort{abAssume, ""})
		}
		in.ctx.newModel(m)
	}
	in.assumePC(c)
}

func (in *Interp) assertCond(c *Term, label string) {
	in.st.Asserts++
	if v, ok := in.lookup(c); ok && v {
		in.st.AssertConst++
		return
	}
	if in.spec > 0 {
		in.specFail("explore.go:816")
	}
	in.pending = append(in.pending, pendingAssert{c, label})
	if c.isFalse() {
		in.flushAsserts()
		panic(&pathAbort{abDone, ""})
	}
}

func (s *Stats) cutList() []string {
	var r []string
	for k, v := range s.Cut {
		if k == "(assume)" {
			continue
		}
		r = append(r, fmt.Sprintf("%s x%d", k, v))
	}
	sort.Strings(r)
	return r
}

func (s *Stats) String() string {
	return fmt.Sprintf("paths=%d dec=%d forced=%d queries=%d (sat %d unsat %d unk %d) solver=%.1fs maxq=%.2fs steps=%d asserts=%d(const %d) merges=%d/%d wall=%.1fs complete=%v cut=[%s]",
		s.Paths, s.Decisions, s.Forced, s.Queries, s.NSat, s.NUnsat, s.NUnk, s.SolverTime.Seconds(), s.MaxQuery.Seconds(), s.Steps, s.Asserts, s.AssertConst, s.Merges, s.MergeAborts, s.Wall.Seconds(), s.Complete, strings.Join(s.cutList(), "; "))
}

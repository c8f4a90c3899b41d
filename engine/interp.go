package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// TPanic is a panic of the target program.
type TPanic struct {
	val   Value // interface value (nil for runtime errors)
	rt    string
	where string
	trace []string
}

func (p *TPanic) label(in *Interp) string {
	return "panic at " + p.where
}

func (p *TPanic) detail(in *Interp) string {
	s := p.rt
	if s == "" {
		s = in.fmtVal(p.val, 'v')
	}
	return s + " [" + strings.Join(p.trace, " < ") + "]"
}

type undoEnt struct {
	o *Obj
	i int
	v Value
	t types.Type
}

type mapUndo struct {
	m    *MapObj
	copy MapObj
}

type learnUndo struct {
	c      *Term
	had    bool
	val    bool
	isK    bool
	k      uint64
	ou, os int
}

// Interp is one worker: a private heap, term context and solver.
type Interp struct {
	eng       *Engine
	e         *Explorer
	local     []work
	merge     bool
	solver    *Solver
	ctx       *Ctx
	st        Stats
	markFuncs map[*ssa.Function]bool
	gen       uint32

	prefix     []Dec
	preNode    *decNode
	curNode    *decNode
	replayTo   *decNode
	decIdx     int
	pc         []*Term
	known      map[*Term]bool
	kc         map[*Term]uint64
	llog       []learnUndo
	llogOn     bool
	ordU, ordS *ordGraph
	nvars      int
	pending    []pendingAssert
	obs        []*Term
	steps      int64
	spec       int
	guard      *Term
	specEnd    int64
	seq        int64 // allocation epochs, for merging
	allocLim   int   // if not 0, the most elements a make may ask for
	sideStart  int64
	depth      int
	sp         int
	inPath     bool

	lay        *layout
	globals    map[*ssa.Global]*Obj
	code       map[*ssa.Function]*fnCode
	stack      []Value
	ulog       []undoEnt
	mlog       []mapUndo
	cur        *frame
	setup      string
	pathNo     int64
	canon      map[types.Type]types.Type
	mcache     map[mkeyT]*ssa.Function
	rtErr      types.Type
	hooks      map[string]any // per path scratch for intrinsics
	nextDefPar *frame
}

type mkeyT struct {
	t types.Type
	m *types.Func
}

func newInterp(eng *Engine) *Interp {
	in := &Interp{eng: eng, ctx: newCtx(), lay: newLayout(), globals: map[*ssa.Global]*Obj{}, code: map[*ssa.Function]*fnCode{},
		canon: map[types.Type]types.Type{}, mcache: map[mkeyT]*ssa.Function{}, known: map[*Term]bool{}, kc: map[*Term]uint64{},
		hooks: map[string]any{}, markFuncs: map[*ssa.Function]bool{}}
	in.stack = make([]Value, 1<<16)
	in.st = Stats{Cut: map[string]int64{}, Covers: map[string]int64{}, Funcs: map[string]bool{}}
	in.runInits()
	return in
}

// runInits runs the package initialisers concretely.
func (in *Interp) runInits() {
	done := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if done[p] {
			return
		}
		done[p] = true
		for _, q := range p.Imports() {
			visit(q)
		}
		if !in.eng.runInit(p.Path()) {
			return
		}
		sp := in.eng.prog.Package(p)
		if sp == nil {
			return
		}
		if f := sp.Func("init"); f != nil {
			in.callTop(f, nil)
		}
	}
	for _, p := range in.eng.roots {
		visit(p.Pkg)
	}
}

// callTop runs a function concretely outside a path.
func (in *Interp) callTop(f *ssa.Function, args []Value) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case *TPanic:
				panic(fmt.Sprintf("concrete run of %s panicked: %s %s", f, x.label(in), x.detail(in)))
			case *pathAbort:
				panic(fmt.Sprintf("concrete run of %s aborted: %s at %s", f, x.msg, in.where()))
			}
			panic(r)
		}
	}()
	in.depth, in.sp, in.steps = 0, 0, 0
	in.callFn(f, args, nil)
}

func (in *Interp) ensureSetup(h *HarnessRun) {
	in.gen++
	if h.setupFn == nil {
		return
	}
	key := h.Name + fmt.Sprint(h.Args)
	if in.setup == key {
		return
	}
	in.setup = key
	var args []Value
	for _, a := range h.Args[:min(len(h.Args), len(h.setupFn.Params))] {
		args = append(args, Value{n: uint64(a)})
	}
	in.inPath = false
	in.callTop(h.setupFn, args)
}

func (in *Interp) callHarness() {
	in.pathNo++
	in.hooks = map[string]any{}
	var args []Value
	for _, a := range in.e.h.Args {
		args = append(args, Value{n: uint64(a)})
	}
	in.callFn(in.e.h.fn, args, nil)
}

// undo restores objects that existed before the path.
func (in *Interp) undo() {
	for i := len(in.ulog) - 1; i >= 0; i-- {
		u := &in.ulog[i]
		u.o.cells[u.i] = u.v
	}
	in.ulog = in.ulog[:0]
	for i := len(in.mlog) - 1; i >= 0; i-- {
		u := &in.mlog[i]
		*u.m = u.copy
	}
	in.mlog = in.mlog[:0]
	in.llog = in.llog[:0]
	in.llogOn = false
	in.cur = nil
}

func (in *Interp) where() string {
	f := in.cur
	n := 0
	for f != nil && n < 50 {
		if f.code != nil && !strings.Contains(f.code.fn.String(), "zzsym") {
			return f.code.fn.RelString(nil) + "#" + in.eng.lineOf(f.code.fn, f.curPos())
		}
		f = f.caller
		n++
	}
	return "?"
}

func (in *Interp) trace() []string {
	var r []string
	for f := in.cur; f != nil && len(r) < 8; f = f.caller {
		if f.code != nil {
			r = append(r, f.code.fn.RelString(nil)+"#"+in.eng.lineOf(f.code.fn, f.curPos()))
		}
	}
	return r
}

func (in *Interp) panicRT(msg string) {
	if in.spec > 0 {
		in.specFail("interp.go:232")
	}
	panic(&TPanic{rt: msg, where: in.where(), trace: in.trace()})
}

func (in *Interp) unsupported(format string, a ...any) {
	if in.spec > 0 {
		in.specFail("interp.go:239")
	}
	panic(&pathAbort{abUnsupported, fmt.Sprintf(format, a...) + " at " + in.where()})
}

// ---------------------------------------------------------------- frames and calls

type deferred struct {
	fn   Value
	call func()
}

type frame struct {
	code   *fnCode
	regs   []Value
	bind   []Value
	caller *frame
	b      *blk
	opi    int
	ret    Value
	defers []func()
	pan    *TPanic // panic being processed by deferred calls
	rec    bool
	defPar *frame // for deferred calls: the frame that deferred us
}

func (f *frame) curPos() ssa.Instruction {
	if f.b == nil {
		return nil
	}
	if f.opi < len(f.b.instrs) {
		return f.b.instrs[f.opi]
	}
	if n := len(f.b.sb.Instrs); n > 0 {
		return f.b.sb.Instrs[n-1]
	}
	return nil
}

const maxDepth = 4000

// call invokes a function value.
func (in *Interp) callVal(fv Value, args []Value) Value {
	if fv.r == nil {
		in.panicRT("invalid memory address or nil pointer dereference (nil func)")
	}
	cl := fv.r.(*Closure)
	if cl.nat != nil {
		return cl.nat(in, args)
	}
	return in.callFn(cl.fn, args, cl.bind)
}

func (in *Interp) callFn(fn *ssa.Function, args []Value, bind []Value) Value {
	c := in.code[fn]
	if c == nil {
		c = in.compile(fn)
	}
	if c.intr != nil {
		for i := range args {
			if _, ok := args[i].r.(*Choice); ok {
				args[i] = in.force(args[i])
			}
		}
		return c.intr(in, args)
	}
	if c.fix != nil {
		c.fix(in, args)
	}
	if c.gen != in.gen {
		c.gen = in.gen
		in.markFuncs[fn] = true
	}
	if c.blocks == nil {
		in.unsupported("no body for %s", fn)
	}
	if in.depth > maxDepth {
		in.panicRT("stack overflow")
	}
	if in.sp+c.nregs > len(in.stack) {
		in.stack = make([]Value, max(len(in.stack), c.nregs*2))
		in.sp = 0
	}
	st, sp := in.stack, in.sp
	regs := st[sp : sp+c.nregs : sp+c.nregs]
	in.sp += c.nregs
	copy(regs, args)
	copy(regs[len(args):], bind)
	fr := &frame{code: c, regs: regs, caller: in.cur, defPar: in.nextDefPar}
	in.nextDefPar = nil
	in.cur = fr
	in.depth++
	var ret Value
	if c.hasDefer {
		ret = in.runDeferFn(fr)
	} else {
		in.run(fr)
		ret = fr.ret
	}
	in.depth--
	in.cur = fr.caller
	in.stack = st
	in.sp = sp
	clear(regs)
	return ret
}

// runDeferFn runs a function that has deferred calls.
func (in *Interp) runDeferFn(fr *frame) Value {
	depth := in.depth
	st, sp := in.stack, in.sp
	tp := in.tryRun(fr, func() { in.run(fr) })
	for tp != nil {
		in.depth, in.stack, in.sp, in.cur = depth, st, sp, fr
		fr.pan = tp
		fr.rec = false
		var np *TPanic
		for len(fr.defers) > 0 && np == nil {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			np = in.tryRun(fr, d)
			in.depth, in.stack, in.sp, in.cur = depth, st, sp, fr
			if fr.rec && np == nil {
				break
			}
		}
		if np != nil {
			tp = np
			continue
		}
		if !fr.rec {
			panic(tp)
		}
		fr.pan = nil
		tp = nil
		if fr.code.recover != nil {
			tp = in.tryRun(fr, func() { in.runFrom(fr, fr.code.recover) })
		} else {
			// remaining defers, zero results
			for len(fr.defers) > 0 {
				d := fr.defers[len(fr.defers)-1]
				fr.defers = fr.defers[:len(fr.defers)-1]
				d()
			}
			fr.ret = in.zeroOf(fr.code.fn.Signature.Results())
		}
	}
	return fr.ret
}

func (in *Interp) tryRun(fr *frame, f func()) (tp *TPanic) {
	defer func() {
		if r := recover(); r != nil {
			if p, ok := r.(*TPanic); ok {
				tp = p
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

func (in *Interp) zeroOf(t types.Type) Value {
	if tp, ok := t.(*types.Tuple); ok {
		switch tp.Len() {
		case 0:
			return Value{}
		case 1:
			return in.zeroOf(tp.At(0).Type())
		}
		return Value{r: &Agg{make([]Value, in.lay.cells(t))}}
	}
	if isAgg(t) {
		return Value{r: &Agg{make([]Value, in.lay.cells(t))}}
	}
	return Value{}
}

func (in *Interp) run(fr *frame) { in.runFrom(fr, fr.code.blocks[0]) }

func (in *Interp) stepCheck() {
	if in.spec > 0 && in.steps > in.specEnd {
		in.specFail("interp.go:415")
	}
	if in.inPath && in.steps > in.e.h.MaxSteps {
		panic(&pathAbort{abBudget, in.where()})
	}
	if in.inPath && (in.e.stop.Load() || in.e.violAt.Load() != 0 && in.e.timeUp()) {
		panic(&pathAbort{abStop, ""})
	}
}

func (in *Interp) runFrom(fr *frame, b *blk) {
	for {
		fr.b = b
		for i, op := range b.ops {
			fr.opi = i
			op(fr)
		}
		fr.opi = len(b.ops)
		old := in.steps
		in.steps += int64(len(b.ops)) + 1
		if old>>10 != in.steps>>10 || in.spec > 0 {
			in.stepCheck()
		}
		switch b.term {
		case tJump:
			b = in.takeEdge(fr, &b.succ[0])
		case tIf:
			c := b.cond.get(fr.regs)
			var v bool
			if c.r == nil {
				v = c.n != 0
			} else {
				t := c.r.(*Term)
				known := false
				if v, known = in.lookup(t); !known {
					if in.merge && len(b.regions) > 0 {
						next, ok := in.mergeRegion(fr, b, t)
						if ok {
							if next == nil {
								return
							}
							b = next
							continue
						}
						fr.b = b
						fr.opi = len(b.ops)
					}
					v = in.branch(t)
				}
			}
			if v {
				b = in.takeEdge(fr, &b.succ[0])
			} else {
				b = in.takeEdge(fr, &b.succ[1])
			}
		case tRet:
			fr.ret = b.retVal(in, fr)
			return
		case tPanic:
			v := b.cond.get(fr.regs)
			if in.spec > 0 {
				in.specFail("interp.go:476")
			}
			panic(&TPanic{val: v, where: in.where(), trace: in.trace()})
		}
	}
}

func (in *Interp) takeEdge(fr *frame, e *edge) *blk {
	switch len(e.phis) {
	case 0:
	case 1:
		fr.regs[e.phis[0].dst] = e.phis[0].src.get(fr.regs)
	default:
		var tmp [8]Value
		vs := tmp[:0]
		for i := range e.phis {
			vs = append(vs, e.phis[i].src.get(fr.regs))
		}
		for i := range e.phis {
			fr.regs[e.phis[i].dst] = vs[i]
		}
	}
	return e.to
}

// ---------------------------------------------------------------- values <-> terms

func (in *Interp) tm(v Value, w uint8) *Term {
	if v.r == nil {
		return in.ctx.Const(w, v.n)
	}
	t := v.r.(*Term)
	if t.w != w {
		panic(fmt.Sprintf("width mismatch: term w%d, want %d at %s", t.w, w, in.where()))
	}
	return t
}

func tv(t *Term) Value {
	if t.op == OConst {
		return Value{n: t.k}
	}
	return Value{r: t}
}

func (in *Interp) boolTerm(v Value) *Term {
	if v.r == nil {
		return in.ctx.Bool(v.n != 0)
	}
	return v.r.(*Term)
}

// concInt forces a (64-bit style) integer to a concrete value.
func (in *Interp) concInt(v Value) uint64 {
	if v.r == nil {
		return v.n
	}
	return in.concretize(v.r.(*Term))
}

func (in *Interp) newObj(n int, et types.Type) *Obj {
	o := &Obj{cells: make([]Value, n), et: et}
	if !in.inPath {
		o.old = true
	}
	o.birth = in.seq
	return o
}

func (in *Interp) setCell(o *Obj, i int, v Value, t types.Type) {
	if o.old && in.inPath || o.birth < in.sideStart {
		in.ulog = append(in.ulog, undoEnt{o, i, o.cells[i], t})
	}
	o.cells[i] = v
}

// mergeVal is ite(g, a, b); it aborts speculation when values cannot be merged.
func (in *Interp) mergeVal(g *Term, a, b Value, t types.Type) Value {
	if a.r == b.r && a.n == b.n {
		return a
	}
	if t == nil {
		in.specFail("interp.go:558")
	}
	if w, _, _, ok := scalarInfo(t); ok {
		return tv(in.ctx.Ite(g, in.tm(a, w), in.tm(b, w)))
	}
	switch t.Underlying().(type) {
	case *types.Interface, *types.Pointer:
		if _, ok := a.r.(*SymPtr); !ok {
			if _, ok := b.r.(*SymPtr); !ok {
				x, ok1 := a.r.(*Iface)
				y, ok2 := b.r.(*Iface)
				if ok1 && ok2 && x.t == y.t && !sameRef(a, b) {
					if _, ptr := x.t.Underlying().(*types.Pointer); !ptr {
						return Value{r: &Iface{x.t, in.mergeVal(g, x.v, y.v, x.t)}}
					}
				}
				return in.choose(g, a, b)
			}
		}
	}
	if a.r != nil && b.r != nil {
		switch x := a.r.(type) {
		case *SliceV:
			if y, ok := b.r.(*SliceV); ok && *x == *y {
				return a
			}
		case *StrV:
			y := b.r.(*StrV)
			if x.length() == y.length() {
				cs := make([]Value, x.length())
				for i := range cs {
					cs[i] = in.mergeVal(g, x.at(i), y.at(i), types.Typ[types.Uint8])
				}
				return strFromCells(cs)
			}
		case *Iface:
			y := b.r.(*Iface)
			if x.t == y.t {
				return Value{r: &Iface{x.t, in.mergeVal(g, x.v, y.v, x.t)}}
			}
		case *Agg:
			y := b.r.(*Agg)
			ct := in.cellTypes(t)
			if len(x.c) == len(y.c) && len(ct) == len(x.c) {
				cs := make([]Value, len(x.c))
				for i := range cs {
					cs[i] = in.mergeVal(g, x.c[i], y.c[i], ct[i])
				}
				return Value{r: &Agg{cs}}
			}
		case *Closure:
			if y, ok := b.r.(*Closure); ok && x.fn == y.fn && len(x.bind) == 0 && len(y.bind) == 0 {
				return a
			}
		}
	} else if isString(t) && strOf(a).length() == 0 && strOf(b).length() == 0 {
		return a
	}
	panic(specAbort{})
}

// cellTypes lists the scalar cell types of a flattened type.
func (in *Interp) cellTypes(t types.Type) []types.Type {
	if r, ok := in.lay.ct[t]; ok {
		return r
	}
	var r []types.Type
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, in.cellTypes(u.Field(i).Type())...)
		}
	case *types.Array:
		e := in.cellTypes(u.Elem())
		for i := 0; i < int(u.Len()); i++ {
			r = append(r, e...)
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			r = append(r, in.cellTypes(u.At(i).Type())...)
		}
	default:
		r = []types.Type{t}
	}
	in.lay.ct[t] = r
	return r
}

// ---------------------------------------------------------------- loads and stores

const nilDeref = "invalid memory address or nil pointer dereference"

// plainRef: a pointer that can be dereferenced without a fault on every alternative.
func (in *Interp) plainRef(v Value) bool {
	switch x := v.r.(type) {
	case *Obj, *SymPtr:
		return true
	case *Choice:
		return in.plainRef(x.a) && in.plainRef(x.b)
	}
	return false
}

// load reads a value of type t through pointer p.
func (in *Interp) load(p Value, t types.Type, nc int, agg bool) Value {
	switch o := p.r.(type) {
	case *Obj:
		if !agg {
			return o.cells[p.n]
		}
		return Value{r: &Agg{append([]Value(nil), o.cells[p.n:int(p.n)+nc]...)}}
	case *SymPtr:
		ct := in.cellTypes(t)
		if !agg {
			return in.muxLoad(o, 0, ct[0])
		}
		cs := make([]Value, nc)
		for i := range cs {
			cs[i] = in.muxLoad(o, i, ct[i])
		}
		return Value{r: &Agg{cs}}
	case *Choice:
		p = in.simpChoice(p)
		if ch, ok := p.r.(*Choice); ok && !agg && in.plainRef(ch.a) && in.plainRef(ch.b) {
			x, y := in.load(ch.a, t, nc, agg), in.load(ch.b, t, nc, agg)
			if _, _, _, ok := scalarInfo(t); ok {
				return in.mergeVal(ch.c, x, y, t)
			}
		}
		return in.load(in.force(p), t, nc, agg)
	case nil:
		in.panicRT(nilDeref)
	}
	panic(fmt.Sprintf("load through %T at %s", p.r, in.where()))
}

func (in *Interp) muxLoad(p *SymPtr, k int, t types.Type) Value {
	w, _, _, ok := scalarInfo(t)
	if !ok {
		// identical for all?
		first := p.obj.cells[p.base+k]
		same := true
		for i := 1; i < p.count; i++ {
			c := p.obj.cells[p.base+i*p.stride+k]
			if c.r != first.r || c.n != first.n {
				same = false
				break
			}
		}
		if same {
			return first
		}
		if in.spec > 0 {
			in.specFail("interp.go:676")
		}
		i := int(in.concretize(p.idx))
		return p.obj.cells[p.base+i*p.stride+k]
	}
	if kv, ok := in.kc[p.idx]; ok {
		return p.obj.cells[p.base+int(kv)*p.stride+k]
	}
	return tv(in.mux(p, k, w, 0, p.count))
}

// mux builds a balanced selection tree over [lo,hi).
func (in *Interp) mux(p *SymPtr, k int, w uint8, lo, hi int) *Term {
	cell := func(i int) *Term { return in.tm(p.obj.cells[p.base+i*p.stride+k], w) }
	if hi-lo == 1 {
		return cell(lo)
	}
	// all equal?
	first := cell(lo)
	same := true
	for i := lo + 1; i < hi; i++ {
		if cell(i) != first {
			same = false
			break
		}
	}
	if same {
		return first
	}
	mid := 1
	for mid*2 < hi-lo {
		mid *= 2
	}
	mid += lo
	c := in.ctx.Ult(p.idx, in.ctx.Const(64, uint64(mid)))
	if v, ok := in.lookup(c); ok {
		if v {
			return in.mux(p, k, w, lo, mid)
		}
		return in.mux(p, k, w, mid, hi)
	}
	return in.ctx.Ite(c, in.mux(p, k, w, lo, mid), in.mux(p, k, w, mid, hi))
}

// store writes v of type t through pointer p.
func (in *Interp) store(p Value, v Value, t types.Type, nc int, agg bool) {
	switch o := p.r.(type) {
	case *Obj:
		if !agg {
			// fast path
			if !o.old && in.spec == 0 {
				o.cells[p.n] = v
				return
			}
			in.setCell(o, int(p.n), v, t)
			return
		}
		a := v.r.(*Agg)
		var ct []types.Type
		if in.spec > 0 {
			ct = in.cellTypes(t)
		}
		for i := 0; i < nc; i++ {
			var et types.Type
			if ct != nil {
				et = ct[i]
			}
			in.setCell(o, int(p.n)+i, a.c[i], et)
		}
	case *SymPtr:
		ct := in.cellTypes(t)
		for k := 0; k < nc; k++ {
			x := v
			if agg {
				x = v.r.(*Agg).c[k]
			}
			if _, _, _, ok := scalarInfo(ct[k]); !ok {
				if in.spec > 0 {
					in.specFail("interp.go:754")
				}
				i := int(in.concretize(o.idx))
				in.setCell(o.obj, o.base+i*o.stride+k, x, ct[k])
				continue
			}
			for i := 0; i < o.count; i++ {
				g := in.ctx.Eq(o.idx, in.ctx.Const(64, uint64(i)))
				if g.isFalse() {
					continue
				}
				if v, ok := in.lookup(g); ok {
					if !v {
						continue
					}
					g = in.ctx.tTrue
				}
				pos := o.base + i*o.stride + k
				var nv Value
				if g.isTrue() {
					nv = x
				} else {
					nv = in.mergeVal(g, x, o.obj.cells[pos], ct[k])
				}
				in.setCell(o.obj, pos, nv, ct[k])
			}
		}
	case *Choice:
		p = in.simpChoice(p)
		if ch, ok := p.r.(*Choice); ok && !agg && in.plainRef(ch.a) && in.plainRef(ch.b) {
			if _, _, _, ok := scalarInfo(t); ok {
				x := in.load(ch.a, t, nc, agg)
				in.store(ch.a, in.mergeVal(ch.c, v, x, t), t, nc, agg)
				y := in.load(ch.b, t, nc, agg)
				in.store(ch.b, in.mergeVal(ch.c, y, v, t), t, nc, agg)
				return
			}
		}
		in.store(in.force(p), v, t, nc, agg)
	case nil:
		in.panicRT(nilDeref)
	default:
		panic(fmt.Sprintf("store through %T", p.r))
	}
}

// prove establishes that c holds in the current (speculative) context, or aborts speculation.
func (in *Interp) prove(c *Term) {
	if v, ok := in.lookup(c); ok {
		if v {
			return
		}
		in.specFail("interp.go:794")
	}
	if in.decIdx < len(in.prefix) {
		d := in.prefix[in.decIdx]
		in.addDec(d)
		if d.flag == 3 {
			return
		}
		in.specFail("interp.go:802")
	}
	q := in.ctx.Not(c)
	if in.guard != nil {
		q = in.ctx.And(in.guard, q)
	}
	res, _ := in.solver.Check(in.pc, q, false)
	if res == Unsat {
		in.addDec(Dec{3, 0, 0})
		return
	}
	in.addDec(Dec{2, 0, 0})
	in.specFail("interp.go:814")
}

// inBounds makes sure idx < n (unsigned), panicking in the target otherwise.
func (in *Interp) inBounds(idx *Term, n uint64) {
	c := in.ctx.Ult(idx, in.ctx.Const(64, n))
	if c.isTrue() {
		return
	}
	if in.spec > 0 {
		in.prove(c)
		return
	}
	if !in.branch(c) {
		in.panicRT(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
}

func (in *Interp) idx64(v Value, w uint8, signed bool) Value {
	if v.r == nil {
		if signed {
			return Value{n: uint64(sext(v.n, w))}
		}
		return v
	}
	return tv(in.ctx.Resize(v.r.(*Term), 64, signed))
}

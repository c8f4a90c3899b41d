package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type iop func(fr *frame)

type opnd struct {
	i int // register, or -1
	c Value
}

func (o *opnd) get(regs []Value) Value {
	if o.i >= 0 {
		return regs[o.i]
	}
	return o.c
}

type phiMove struct {
	dst int
	src opnd
}

type edge struct {
	to   *blk
	phis []phiMove
}

type termKind uint8

const (
	tJump termKind = iota
	tIf
	tRet
	tPanic
)

type blk struct {
	id       uint32
	sb       *ssa.BasicBlock
	instrs   []ssa.Instruction
	ops      []iop
	term     termKind
	cond     opnd
	succ     []edge
	retVal   func(in *Interp, fr *frame) Value
	regions  []*region
	abortCt  []int
	abortGen int64
	phiTypes []types.Type
	phiDst   []int
}

type fnCode struct {
	fn       *ssa.Function
	nregs    int
	blocks   []*blk
	hasDefer bool
	recover  *blk
	intr     func(in *Interp, args []Value) Value
	gen      uint32
	fix      func(in *Interp, args []Value)
}

func resType(fn *ssa.Function) types.Type {
	r := fn.Signature.Results()
	if r.Len() == 1 {
		return r.At(0).Type()
	}
	return r
}

type compiler struct {
	in   *Interp
	fn   *ssa.Function
	code *fnCode
	idx  map[ssa.Value]int
	blks []*blk
}

func (in *Interp) compile(fn *ssa.Function) *fnCode {
	code := &fnCode{fn: fn, fix: argFix[fnName(fn)]}
	in.code[fn] = code
	if fn.Name() == "init" && fn.Synthetic != "" && fn.Pkg != nil && !in.eng.runInit(fn.Pkg.Pkg.Path()) {
		code.intr = func(in *Interp, args []Value) Value { return Value{} }
		return code
	}
	if it := in.eng.intrinsic(fn); it != nil {
		code.intr = it
		return code
	}
	if redirect := in.eng.redirect(fn); redirect != nil {
		code.intr = func(in *Interp, args []Value) Value { return in.callFn(redirect, args, nil) }
		return code
	}
	if len(fn.Blocks) == 0 {
		return code
	}
	c := &compiler{in: in, fn: fn, code: code, idx: map[ssa.Value]int{}}
	n := 0
	reg := func(v ssa.Value) {
		c.idx[v] = n
		n++
	}
	for _, p := range fn.Params {
		reg(p)
	}
	for _, f := range fn.FreeVars {
		reg(f)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				reg(v)
			}
			if _, ok := i.(*ssa.Defer); ok {
				code.hasDefer = true
			}
		}
	}
	code.nregs = n
	h := fnv.New32a()
	h.Write([]byte(fn.String()))
	base := h.Sum32()
	for _, b := range fn.Blocks {
		c.blks = append(c.blks, &blk{sb: b, id: base + uint32(b.Index)})
	}
	for i, b := range fn.Blocks {
		c.block(b, c.blks[i])
	}
	pd := ipdoms(fn, nil, nil)
	loops := natLoops(fn)
	for i, b := range c.blks {
		if b.term != tIf {
			continue
		}
		add := func(post int) {
			for _, r := range b.regions {
				if r.post == nil && post < 0 || r.post != nil && post >= 0 && r.post == c.blks[post] {
					return
				}
			}
			rg := &region{}
			if post >= 0 {
				rg.post = c.blks[post]
				c.liveRegs(rg, fn.Blocks[post])
			}
			b.regions = append(b.regions, rg)
		}
		if lp := innermost(loops, i); lp != nil {
			if lp.pd == nil {
				lp.pd = ipdoms(fn, lp.body, fn.Blocks[lp.head])
			}
			if lp.pd[i] >= 0 {
				add(lp.pd[i])
			}
		}
		if pd[i] != -2 {
			add(pd[i])
		}
		b.abortCt = make([]int, len(b.regions))
	}
	code.blocks = c.blks
	if fn.Recover != nil {
		code.recover = c.blks[fn.Recover.Index]
	}
	return code
}

// liveRegs lists values defined in blocks strictly dominating the join and used at or after it.
func (c *compiler) liveRegs(rg *region, post *ssa.BasicBlock) {
	reach := map[*ssa.BasicBlock]bool{post: true}
	work := []*ssa.BasicBlock{post}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, s := range b.Succs {
			if !reach[s] {
				reach[s] = true
				work = append(work, s)
			}
		}
	}
	for d := post.Idom(); d != nil; d = d.Idom() {
		for _, i := range d.Instrs {
			v, ok := i.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			used := false
			for _, r := range *v.Referrers() {
				if _, isd := r.(*ssa.DebugRef); isd {
					continue
				}
				if reach[r.Block()] {
					used = true
					break
				}
			}
			if used {
				rg.live = append(rg.live, liveReg{c.idx[v], v})
			}
		}
	}
}

func (c *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{-1, c.in.constVal(x)}
	case *ssa.Global:
		return opnd{-1, Value{r: c.in.globalObj(x)}}
	case *ssa.Function:
		return opnd{-1, Value{r: &Closure{fn: x}}}
	case *ssa.Builtin:
		return opnd{-1, Value{r: &Closure{}}}
	}
	i, ok := c.idx[v]
	if !ok {
		panic(fmt.Sprintf("no register for %v in %v", v, c.fn))
	}
	return opnd{i: i}
}

func (in *Interp) globalObj(g *ssa.Global) *Obj {
	o := in.globals[g]
	if o == nil {
		et := g.Type().Underlying().(*types.Pointer).Elem()
		o = &Obj{cells: make([]Value, in.lay.cells(et)), old: true, et: et}
		in.globals[g] = o
		if !in.eng.runInit(g.Pkg.Pkg.Path()) {
			in.initForeignGlobal(g, o)
		}
	}
	return o
}

func (in *Interp) constVal(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return in.zeroOf(t)
	}
	if tp, ok := t.Underlying().(*types.TypeParam); ok {
		_ = tp
		panic("const of type parameter type")
	}
	if isString(t) {
		if k.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(k.Value))
		}
		i, _ := constant.Int64Val(k.Value)
		return mkStr(string(rune(i)))
	}
	w, signed, fl, ok := scalarInfo(t)
	if !ok {
		panic(fmt.Sprintf("const type %v", t))
	}
	if w == 0 {
		return Value{n: b2u(constant.BoolVal(k.Value))}
	}
	if fl {
		if w == 32 {
			f, _ := constant.Float32Val(k.Value)
			return Value{n: uint64(math.Float32bits(f))}
		}
		f, _ := constant.Float64Val(k.Value)
		return Value{n: math.Float64bits(f)}
	}
	_ = signed
	v := constant.ToInt(k.Value)
	if u, exact := constant.Uint64Val(v); exact {
		return Value{n: u & mask(w)}
	}
	i, _ := constant.Int64Val(v)
	return Value{n: uint64(i) & mask(w)}
}

func (c *compiler) edge(from *ssa.BasicBlock, si int) edge {
	to := from.Succs[si]
	// predecessor index: the si-th duplicate if the same successor appears twice
	dup := 0
	for j := 0; j < si; j++ {
		if from.Succs[j] == to {
			dup++
		}
	}
	pi := -1
	for j, p := range to.Preds {
		if p == from {
			if dup == 0 {
				pi = j
				break
			}
			dup--
		}
	}
	e := edge{to: c.blks[to.Index]}
	for _, i := range to.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		e.phis = append(e.phis, phiMove{c.idx[ph], c.op(ph.Edges[pi])})
	}
	return e
}

func (c *compiler) block(b *ssa.BasicBlock, k *blk) {
	for _, i := range b.Instrs {
		switch x := i.(type) {
		case *ssa.Phi:
			k.phiTypes = append(k.phiTypes, x.Type())
			k.phiDst = append(k.phiDst, c.idx[x])
		case *ssa.DebugRef:
		case *ssa.Jump:
			k.term = tJump
			k.succ = []edge{c.edge(b, 0)}
		case *ssa.If:
			k.term = tIf
			k.cond = c.op(x.Cond)
			k.succ = []edge{c.edge(b, 0), c.edge(b, 1)}
		case *ssa.Return:
			k.term = tRet
			k.retVal = c.retFn(x)
		case *ssa.Panic:
			k.term = tPanic
			k.cond = c.op(x.X)
		default:
			k.ops = append(k.ops, c.forced(i, c.instr(i)))
			k.instrs = append(k.instrs, i)
		}
	}
}

// forced resolves reference choices in operands that the instruction looks into.
func (c *compiler) forced(i ssa.Instruction, op iop) iop {
	var vs []ssa.Value
	switch x := i.(type) {
	case *ssa.Call:
		vs = c.forcedCall(&x.Call)
	case *ssa.Defer:
		vs = c.forcedCall(&x.Call)
	case *ssa.TypeAssert:
		vs = []ssa.Value{x.X}
	case *ssa.Range:
		vs = []ssa.Value{x.X}
	case *ssa.Lookup:
		vs = []ssa.Value{x.X, x.Index}
	case *ssa.MapUpdate:
		vs = []ssa.Value{x.Map, x.Key}
	case *ssa.Slice:
		vs = []ssa.Value{x.X}
	case *ssa.Convert:
		vs = []ssa.Value{x.X}
	case *ssa.IndexAddr:
		vs = []ssa.Value{x.X}
	case *ssa.SliceToArrayPointer:
		vs = []ssa.Value{x.X}
	}
	var regs []int
	for _, v := range vs {
		if v == nil {
			continue
		}
		switch v.Type().Underlying().(type) {
		case *types.Interface, *types.Pointer:
			if o := c.op(v); o.i >= 0 {
				regs = append(regs, o.i)
			}
		}
	}
	if len(regs) == 0 {
		return op
	}
	in := c.in
	if len(regs) == 1 {
		r := regs[0]
		return func(fr *frame) {
			if _, ok := fr.regs[r].r.(*Choice); ok {
				fr.regs[r] = in.force(fr.regs[r])
			}
			op(fr)
		}
	}
	return func(fr *frame) {
		for _, r := range regs {
			if _, ok := fr.regs[r].r.(*Choice); ok {
				fr.regs[r] = in.force(fr.regs[r])
			}
		}
		op(fr)
	}
}

func (c *compiler) forcedCall(cc *ssa.CallCommon) []ssa.Value {
	if cc.IsInvoke() {
		return []ssa.Value{cc.Value}
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return cc.Args
	}
	return nil
}

func (c *compiler) retFn(x *ssa.Return) func(in *Interp, fr *frame) Value {
	switch len(x.Results) {
	case 0:
		return func(in *Interp, fr *frame) Value { return Value{} }
	case 1:
		o := c.op(x.Results[0])
		return func(in *Interp, fr *frame) Value { return o.get(fr.regs) }
	}
	var os []opnd
	var agg []bool
	n := 0
	for _, r := range x.Results {
		os = append(os, c.op(r))
		agg = append(agg, isAgg(r.Type()))
		n += c.in.lay.cells(r.Type())
	}
	return func(in *Interp, fr *frame) Value {
		cs := make([]Value, 0, n)
		for i := range os {
			v := os[i].get(fr.regs)
			if agg[i] {
				cs = append(cs, v.r.(*Agg).c...)
			} else {
				cs = append(cs, v)
			}
		}
		return Value{r: &Agg{cs}}
	}
}

// choiceField adds a field offset to a pointer with alternatives.
func (in *Interp) choiceField(p Value, off int) Value {
	p = in.simpChoice(p)
	switch q := p.r.(type) {
	case *Obj:
		return Value{r: q, n: p.n + uint64(off)}
	case *SymPtr:
		np := *q
		np.base += off
		return Value{r: &np}
	case *Choice:
		if !in.plainRef(p) {
			return in.choiceField(in.force(p), off)
		}
		return in.choose(q.c, in.choiceField(q.a, off), in.choiceField(q.b, off))
	}
	in.panicRT(nilDeref)
	return Value{}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func (c *compiler) instr(i ssa.Instruction) iop {
	in := c.in
	d := -1
	if v, ok := i.(ssa.Value); ok {
		d = c.idx[v]
	}
	switch x := i.(type) {
	case *ssa.Alloc:
		et := deref(x.Type())
		n := in.lay.cells(et)
		return func(fr *frame) { fr.regs[d] = Value{r: in.newObj(n, et)} }
	case *ssa.BinOp:
		return c.binop(x, d)
	case *ssa.UnOp:
		return c.unop(x, d)
	case *ssa.Call:
		f := c.call(&x.Call)
		return func(fr *frame) { fr.regs[d] = f(fr) }
	case *ssa.ChangeInterface:
		o := c.op(x.X)
		return func(fr *frame) { fr.regs[d] = o.get(fr.regs) }
	case *ssa.ChangeType:
		o := c.op(x.X)
		return func(fr *frame) { fr.regs[d] = o.get(fr.regs) }
	case *ssa.Convert:
		return c.convert(x, d)
	case *ssa.MultiConvert:
		panic("MultiConvert")
	case *ssa.Extract:
		o := c.op(x.Tuple)
		tp := x.Tuple.Type().(*types.Tuple)
		off := 0
		for j := 0; j < x.Index; j++ {
			off += in.lay.cells(tp.At(j).Type())
		}
		ft := tp.At(x.Index).Type()
		n := in.lay.cells(ft)
		if isAgg(ft) {
			return func(fr *frame) { fr.regs[d] = Value{r: &Agg{o.get(fr.regs).r.(*Agg).c[off : off+n : off+n]}} }
		}
		return func(fr *frame) { fr.regs[d] = o.get(fr.regs).r.(*Agg).c[off] }
	case *ssa.Field:
		o := c.op(x.X)
		st := x.X.Type().Underlying().(*types.Struct)
		off := in.lay.fieldOff(st, x.Field)
		ft := st.Field(x.Field).Type()
		n := in.lay.cells(ft)
		if isAgg(ft) {
			return func(fr *frame) { fr.regs[d] = Value{r: &Agg{o.get(fr.regs).r.(*Agg).c[off : off+n : off+n]}} }
		}
		return func(fr *frame) { fr.regs[d] = o.get(fr.regs).r.(*Agg).c[off] }
	case *ssa.FieldAddr:
		o := c.op(x.X)
		st := deref(x.X.Type()).Underlying().(*types.Struct)
		off := in.lay.fieldOff(st, x.Field)
		return func(fr *frame) {
			p := o.get(fr.regs)
			switch q := p.r.(type) {
			case *Obj:
				fr.regs[d] = Value{r: q, n: p.n + uint64(off)}
			case *SymPtr:
				np := *q
				np.base += off
				fr.regs[d] = Value{r: &np}
			case *Choice:
				fr.regs[d] = in.choiceField(p, off)
			case nil:
				in.panicRT(nilDeref)
			default:
				panic(fmt.Sprintf("FieldAddr on %T", p.r))
			}
		}
	case *ssa.Index:
		return c.index(x, d)
	case *ssa.IndexAddr:
		return c.indexAddr(x, d)
	case *ssa.Lookup:
		return c.lookup(x, d)
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var os []opnd
		for _, b := range x.Bindings {
			os = append(os, c.op(b))
		}
		return func(fr *frame) {
			bs := make([]Value, len(os))
			for j := range os {
				bs[j] = os[j].get(fr.regs)
			}
			fr.regs[d] = Value{r: &Closure{fn: fn, bind: bs}}
		}
	case *ssa.MakeInterface:
		o := c.op(x.X)
		t := in.canonT(x.X.Type())
		return func(fr *frame) { fr.regs[d] = Value{r: &Iface{t, o.get(fr.regs)}} }
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		return func(fr *frame) { fr.regs[d] = Value{r: in.newMap(mt.Key())} }
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		es := in.lay.cells(et)
		lo, co := c.op(x.Len), c.op(x.Cap)
		lw, ls, _, _ := scalarInfo(x.Len.Type())
		cw, cs, _, _ := scalarInfo(x.Cap.Type())
		return func(fr *frame) {
			n := in.sizeVal(lo.get(fr.regs), lw, ls, "len")
			m := in.sizeVal(co.get(fr.regs), cw, cs, "cap")
			if n > m {
				in.panicRT("makeslice: cap out of range")
			}
			fr.regs[d] = in.makeSlice(et, es, n, m)
		}
	case *ssa.Next:
		return c.next(x, d)
	case *ssa.Range:
		o := c.op(x.X)
		str := isString(x.X.Type())
		return func(fr *frame) {
			v := o.get(fr.regs)
			if str {
				s := strOf(v)
				if s.cells != nil {
					in.unsupported("range over symbolic string")
				}
				fr.regs[d] = Value{r: &mapIter{s: true, bs: s.s}}
				return
			}
			m, _ := v.r.(*MapObj)
			fr.regs[d] = Value{r: &mapIter{m: m}}
		}
	case *ssa.Slice:
		return c.slice(x, d)
	case *ssa.SliceToArrayPointer:
		o := c.op(x.X)
		n := int(deref(x.Type()).Underlying().(*types.Array).Len())
		return func(fr *frame) {
			v := o.get(fr.regs)
			s, _ := v.r.(*SliceV)
			if s == nil {
				if n > 0 {
					in.panicRT("cannot convert slice to array pointer")
				}
				fr.regs[d] = Value{}
				return
			}
			if s.len < n {
				in.panicRT("cannot convert slice to array pointer")
			}
			fr.regs[d] = Value{r: s.obj, n: uint64(s.off)}
		}
	case *ssa.Store:
		p, v := c.op(x.Addr), c.op(x.Val)
		t := x.Val.Type()
		agg := isAgg(t)
		n := in.lay.cells(t)
		if !agg {
			return func(fr *frame) {
				pv := p.get(fr.regs)
				if o, ok := pv.r.(*Obj); ok && !o.old && in.spec == 0 {
					o.cells[pv.n] = v.get(fr.regs)
					return
				}
				in.store(pv, v.get(fr.regs), t, n, false)
			}
		}
		return func(fr *frame) { in.store(p.get(fr.regs), v.get(fr.regs), t, n, agg) }
	case *ssa.TypeAssert:
		return c.typeAssert(x, d)
	case *ssa.MapUpdate:
		m, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		return func(fr *frame) {
			mo, _ := m.get(fr.regs).r.(*MapObj)
			if mo == nil {
				in.panicRT("assignment to entry in nil map")
			}
			in.mapSet(mo, k.get(fr.regs), v.get(fr.regs))
		}
	case *ssa.Defer:
		f := c.callClosure(&x.Call)
		return func(fr *frame) {
			if in.spec > 0 {
				in.specFail("compile.go:537")
			}
			fr.defers = append(fr.defers, f(fr))
		}
	case *ssa.RunDefers:
		return func(fr *frame) {
			if in.spec > 0 && len(fr.defers) > 0 {
				in.specFail("compile.go:544")
			}
			for len(fr.defers) > 0 {
				g := fr.defers[len(fr.defers)-1]
				fr.defers = fr.defers[:len(fr.defers)-1]
				g()
			}
		}
	}
	msg := fmt.Sprintf("instruction %T %v", i, i)
	return func(fr *frame) { in.unsupported("%s", msg) }
}

func (in *Interp) sizeVal(v Value, w uint8, signed bool, what string) int {
	v = in.idx64(v, w, signed)
	if v.r != nil {
		t := v.r.(*Term)
		if in.allocLim > 0 {
			if in.spec > 0 {
				in.specFail("compile.go:675")
			}
			if !in.branch(in.ctx.Ule(t, in.ctx.Const(64, uint64(in.allocLim)))) && in.branch(in.ctx.Ult(t, in.ctx.Const(64, 1<<40))) {
				in.branch(in.ctx.Ult(t, in.ctx.Const(64, uint64(in.allocLim)*4)))
				in.assertCond(in.ctx.tFalse, allocLabel)
			}
		}
		lim := in.ctx.Ult(t, in.ctx.Const(64, 1<<40))
		if in.spec > 0 {
			in.specFail("compile.go:563")
		}
		if !in.branch(lim) {
			in.panicRT("makeslice: " + what + " out of range")
		}
		n := in.concretize(t)
		v = Value{n: n}
	}
	n := int64(v.n)
	if n < 0 || n > 1<<40 {
		in.panicRT("makeslice: " + what + " out of range")
	}
	if in.allocLim > 0 && n > int64(in.allocLim) {
		in.assertCond(in.ctx.tFalse, allocLabel)
	}
	if n > 1<<24 {
		in.unsupported("allocation of %d elements", n)
	}
	return int(n)
}

func (in *Interp) makeSlice(et types.Type, es, n, m int) Value {
	o := in.newObj(m*es, et)
	return Value{r: &SliceV{o, 0, n, m, es}}
}

// ---------------------------------------------------------------- unary and binary operators

func (c *compiler) unop(x *ssa.UnOp, d int) iop {
	in := c.in
	o := c.op(x.X)
	switch x.Op {
	case token.MUL:
		t := x.Type()
		n := in.lay.cells(t)
		agg := isAgg(t)
		if g, ok := x.X.(*ssa.Global); ok && !in.eng.runInit(g.Pkg.Pkg.Path()) && !in.foreignOK(g) {
			name := g.String()
			return func(fr *frame) { in.unsupported("global of uninitialised package %s", name) }
		}
		if !agg {
			return func(fr *frame) {
				p := o.get(fr.regs)
				if ob, ok := p.r.(*Obj); ok {
					fr.regs[d] = ob.cells[p.n]
					return
				}
				fr.regs[d] = in.load(p, t, n, false)
			}
		}
		return func(fr *frame) { fr.regs[d] = in.load(o.get(fr.regs), t, n, agg) }
	case token.NOT:
		return func(fr *frame) {
			v := o.get(fr.regs)
			if v.r == nil {
				fr.regs[d] = Value{n: v.n ^ 1}
				return
			}
			fr.regs[d] = tv(in.ctx.Not(v.r.(*Term)))
		}
	case token.SUB:
		w, _, fl, _ := scalarInfo(x.Type())
		return func(fr *frame) {
			v := o.get(fr.regs)
			if fl {
				if v.r == nil {
					fr.regs[d] = Value{n: v.n ^ (1 << (w - 1))}
				} else {
					fr.regs[d] = tv(in.ctx.FNeg(v.r.(*Term)))
				}
				return
			}
			if v.r == nil {
				fr.regs[d] = Value{n: -v.n & mask(w)}
				return
			}
			fr.regs[d] = tv(in.ctx.Neg(v.r.(*Term)))
		}
	case token.XOR:
		w, _, _, _ := scalarInfo(x.Type())
		return func(fr *frame) {
			v := o.get(fr.regs)
			if v.r == nil {
				fr.regs[d] = Value{n: ^v.n & mask(w)}
				return
			}
			fr.regs[d] = tv(in.ctx.BNot(v.r.(*Term)))
		}
	}
	msg := x.String()
	return func(fr *frame) { in.unsupported("unop %s", msg) }
}

func (c *compiler) binop(x *ssa.BinOp, d int) iop {
	in := c.in
	a, b := c.op(x.X), c.op(x.Y)
	t := x.X.Type()
	switch x.Op {
	case token.EQL, token.NEQ:
		neg := x.Op == token.NEQ
		w, _, fl, ok := scalarInfo(t)
		_, isI := t.Underlying().(*types.Interface)
		if ok && !fl && !isI {
			return func(fr *frame) {
				va, vb := a.get(fr.regs), b.get(fr.regs)
				if va.r == nil && vb.r == nil {
					fr.regs[d] = Value{n: b2u((va.n == vb.n) != neg)}
					return
				}
				e := in.ctx.Eq(in.tm(va, w), in.tm(vb, w))
				if neg {
					e = in.ctx.Not(e)
				}
				fr.regs[d] = tv(e)
			}
		}
		// mixed interface / concrete comparisons
		ta, tb := x.X.Type(), x.Y.Type()
		return func(fr *frame) {
			va, vb := a.get(fr.regs), b.get(fr.regs)
			tt := ta
			if isIface(ta) && !isIface(tb) {
				vb = Value{r: &Iface{in.canonT(tb), vb}}
			} else if isIface(tb) && !isIface(ta) {
				va = Value{r: &Iface{in.canonT(ta), va}}
				tt = tb
			}
			e := in.equal(va, vb, tt)
			if neg {
				e = in.ctx.Not(e)
			}
			fr.regs[d] = tv(e)
		}
	}
	if isString(t) {
		switch x.Op {
		case token.ADD:
			return func(fr *frame) {
				p, q := strOf(a.get(fr.regs)), strOf(b.get(fr.regs))
				if p.cells == nil && q.cells == nil {
					fr.regs[d] = mkStr(p.s + q.s)
					return
				}
				fr.regs[d] = strFromCells(append(append([]Value{}, p.toCells()...), q.toCells()...))
			}
		default:
			op := x.Op
			return func(fr *frame) {
				p, q := strOf(a.get(fr.regs)), strOf(b.get(fr.regs))
				var r *Term
				switch op {
				case token.LSS:
					r = in.strLess(p, q)
				case token.GTR:
					r = in.strLess(q, p)
				case token.LEQ:
					r = in.ctx.Not(in.strLess(q, p))
				case token.GEQ:
					r = in.ctx.Not(in.strLess(p, q))
				}
				fr.regs[d] = tv(r)
			}
		}
	}
	w, signed, fl, ok := scalarInfo(t)
	if !ok {
		msg := x.String()
		return func(fr *frame) { in.unsupported("binop %s on %v", msg, t) }
	}
	if fl {
		return c.floatBin(x.Op, a, b, w, d)
	}
	m := mask(w)
	cx := func() *Ctx { return in.ctx }
	switch x.Op {
	case token.ADD:
		return func(fr *frame) {
			va, vb := a.get(fr.regs), b.get(fr.regs)
			if va.r == nil && vb.r == nil {
				fr.regs[d] = Value{n: (va.n + vb.n) & m}
				return
			}
			fr.regs[d] = tv(cx().Add(in.tm(va, w), in.tm(vb, w)))
		}
	case token.SUB:
		return func(fr *frame) {
			va, vb := a.get(fr.regs), b.get(fr.regs)
			if va.r == nil && vb.r == nil {
				fr.regs[d] = Value{n: (va.n - vb.n) & m}
				return
			}
			fr.regs[d] = tv(cx().Sub(in.tm(va, w), in.tm(vb, w)))
		}
	case token.MUL:
		return func(fr *frame) {
			va, vb := a.get(fr.regs), b.get(fr.regs)
			if va.r == nil && vb.r == nil {
				fr.regs[d] = Value{n: (va.n * vb.n) & m}
				return
			}
			fr.regs[d] = tv(cx().Mul(in.tm(va, w), in.tm(vb, w)))
		}
	case token.QUO, token.REM:
		quo := x.Op == token.QUO
		return func(fr *frame) {
			va, vb := a.get(fr.regs), b.get(fr.regs)
			if vb.r == nil {
				if vb.n == 0 {
					in.panicRT("integer divide by zero")
				}
				if va.r == nil {
					var r uint64
					if signed {
						p, q := sext(va.n, w), sext(vb.n, w)
						switch {
						case q == -1 && quo:
							r = uint64(-p)
						case q == -1:
							r = 0
						case quo:
							r = uint64(p / q)
						default:
							r = uint64(p % q)
						}
					} else if quo {
						r = va.n / vb.n
					} else {
						r = va.n % vb.n
					}
					fr.regs[d] = Value{n: r & m}
					return
				}
			} else {
				nz := cx().Not(cx().Eq(vb.r.(*Term), cx().Const(w, 0)))
				if !nz.isTrue() {
					if in.spec > 0 {
						in.prove(nz)
					} else if !in.branch(nz) {
						in.panicRT("integer divide by zero")
					}
				}
			}
			p, q := in.tm(va, w), in.tm(vb, w)
			var r *Term
			switch {
			case signed && quo:
				r = cx().SDiv(p, q)
			case signed:
				r = cx().SRem(p, q)
			case quo:
				r = cx().UDiv(p, q)
			default:
				r = cx().URem(p, q)
			}
			fr.regs[d] = tv(r)
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		op := x.Op
		return func(fr *frame) {
			va, vb := a.get(fr.regs), b.get(fr.regs)
			if va.r == nil && vb.r == nil {
				var r uint64
				switch op {
				case token.AND:
					r = va.n & vb.n
				case token.OR:
					r = va.n | vb.n
				case token.XOR:
					r = va.n ^ vb.n
				default:
					r = va.n &^ vb.n
				}
				fr.regs[d] = Value{n: r}
				return
			}
			p, q := in.tm(va, w), in.tm(vb, w)
			if w == 0 {
				switch op {
				case token.AND:
					p = cx().And(p, q)
				case token.OR:
					p = cx().Or(p, q)
				}
				fr.regs[d] = tv(p)
				return
			}
			switch op {
			case token.AND:
				p = cx().BAnd(p, q)
			case token.OR:
				p = cx().BOr(p, q)
			case token.XOR:
				p = cx().BXor(p, q)
			default:
				p = cx().BAnd(p, cx().BNot(q))
			}
			fr.regs[d] = tv(p)
		}
	case token.SHL, token.SHR:
		left := x.Op == token.SHL
		bw, bsigned, _, _ := scalarInfo(x.Y.Type())
		return func(fr *frame) {
			va, vb := a.get(fr.regs), b.get(fr.regs)
			if bsigned {
				if vb.r == nil {
					if sext(vb.n, bw) < 0 {
						in.panicRT("negative shift amount")
					}
				} else {
					ok := cx().Sle(cx().Const(bw, 0), vb.r.(*Term))
					if !ok.isTrue() {
						if in.spec > 0 {
							in.prove(ok)
						} else if !in.branch(ok) {
							in.panicRT("negative shift amount")
						}
					}
				}
			}
			if va.r == nil && vb.r == nil {
				s := vb.n
				var r uint64
				switch {
				case left:
					if s < uint64(w) {
						r = (va.n << s) & m
					}
				case signed:
					if s >= uint64(w) {
						s = uint64(w) - 1
					}
					r = uint64(sext(va.n, w)>>s) & m
				default:
					if s < uint64(w) {
						r = va.n >> s
					}
				}
				fr.regs[d] = Value{n: r}
				return
			}
			p, q := in.tm(va, w), in.tm(vb, bw)
			if bw > w {
				big := cx().Ult(cx().Const(bw, uint64(w)-1), q)
				q = cx().Ite(big, cx().Const(w, uint64(w)), cx().Extract(q, 0, w))
			} else if bw < w {
				q = cx().ZExt(q, w)
			}
			switch {
			case left:
				p = cx().Shl(p, q)
			case signed:
				p = cx().AShr(p, q)
			default:
				p = cx().LShr(p, q)
			}
			fr.regs[d] = tv(p)
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		op := x.Op
		return func(fr *frame) {
			va, vb := a.get(fr.regs), b.get(fr.regs)
			if op == token.GTR || op == token.GEQ {
				va, vb = vb, va
			}
			strict := op == token.LSS || op == token.GTR
			if va.r == nil && vb.r == nil {
				var r bool
				if signed {
					p, q := sext(va.n, w), sext(vb.n, w)
					r = p < q || (!strict && p == q)
				} else {
					r = va.n < vb.n || (!strict && va.n == vb.n)
				}
				fr.regs[d] = Value{n: b2u(r)}
				return
			}
			p, q := in.tm(va, w), in.tm(vb, w)
			var r *Term
			switch {
			case signed && strict:
				r = cx().Slt(p, q)
			case signed:
				r = cx().Sle(p, q)
			case strict:
				r = cx().Ult(p, q)
			default:
				r = cx().Ule(p, q)
			}
			fr.regs[d] = tv(r)
		}
	}
	msg := x.String()
	return func(fr *frame) { in.unsupported("binop %s", msg) }
}

func (c *compiler) floatBin(op token.Token, a, b opnd, w uint8, d int) iop {
	in := c.in
	var fop Op
	switch op {
	case token.ADD:
		fop = OFAdd
	case token.SUB:
		fop = OFSub
	case token.MUL:
		fop = OFMul
	case token.QUO:
		fop = OFDiv
	default:
		return func(fr *frame) {
			va, vb := a.get(fr.regs), b.get(fr.regs)
			if va.r == nil && vb.r == nil {
				p, q := bitsToF(va.n, w), bitsToF(vb.n, w)
				var r bool
				switch op {
				case token.LSS:
					r = p < q
				case token.LEQ:
					r = p <= q
				case token.GTR:
					r = p > q
				case token.GEQ:
					r = p >= q
				}
				fr.regs[d] = Value{n: b2u(r)}
				return
			}
			p, q := in.tm(va, w), in.tm(vb, w)
			var r *Term
			switch op {
			case token.LSS:
				r = in.ctx.FLt(p, q)
			case token.LEQ:
				r = in.ctx.FLe(p, q)
			case token.GTR:
				r = in.ctx.FLt(q, p)
			case token.GEQ:
				r = in.ctx.FLe(q, p)
			}
			fr.regs[d] = tv(r)
		}
	}
	return func(fr *frame) {
		va, vb := a.get(fr.regs), b.get(fr.regs)
		if va.r == nil && vb.r == nil {
			fr.regs[d] = Value{n: evalF(fop, va.n, vb.n, w)}
			return
		}
		fr.regs[d] = tv(in.ctx.FBin(fop, in.tm(va, w), in.tm(vb, w)))
	}
}

func (in *Interp) strLess(p, q *StrV) *Term {
	if p.cells == nil && q.cells == nil {
		return in.ctx.Bool(p.s < q.s)
	}
	n := min(p.length(), q.length())
	r := in.ctx.Bool(p.length() < q.length())
	for i := n - 1; i >= 0; i-- {
		x, y := in.tm(p.at(i), 8), in.tm(q.at(i), 8)
		r = in.ctx.Ite(in.ctx.Ult(x, y), in.ctx.tTrue, in.ctx.Ite(in.ctx.Eq(x, y), r, in.ctx.tFalse))
	}
	return r
}

// equal builds the == condition of two values of type t.
func (in *Interp) equal(a, b Value, t types.Type) *Term {
	cx := in.ctx
	if isString(t) {
		p, q := strOf(a), strOf(b)
		if p.length() != q.length() {
			return cx.tFalse
		}
		if p.cells == nil && q.cells == nil {
			return cx.Bool(p.s == q.s)
		}
		r := cx.tTrue
		for i := 0; i < p.length(); i++ {
			r = cx.And(r, cx.Eq(in.tm(p.at(i), 8), in.tm(q.at(i), 8)))
		}
		return r
	}
	if w, _, fl, ok := scalarInfo(t); ok {
		if fl {
			if a.r == nil && b.r == nil {
				return cx.Bool(bitsToF(a.n, w) == bitsToF(b.n, w))
			}
			return cx.FEq(in.tm(a, w), in.tm(b, w))
		}
		return cx.Eq(in.tm(a, w), in.tm(b, w))
	}
	if ch, ok := a.r.(*Choice); ok {
		return cx.Ite(ch.c, in.equal(ch.a, b, t), in.equal(ch.b, b, t))
	}
	if ch, ok := b.r.(*Choice); ok {
		return cx.Ite(ch.c, in.equal(a, ch.a, t), in.equal(a, ch.b, t))
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		r := cx.tTrue
		x, y := a.r.(*Agg).c, b.r.(*Agg).c
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := in.lay.cells(ft)
			if u.Field(i).Name() != "_" {
				r = cx.And(r, in.equal(aggPart(x, off, n, ft), aggPart(y, off, n, ft), ft))
			}
			off += n
		}
		return r
	case *types.Array:
		r := cx.tTrue
		x, y := a.r.(*Agg).c, b.r.(*Agg).c
		n := in.lay.cells(u.Elem())
		for i := 0; i < int(u.Len()); i++ {
			r = cx.And(r, in.equal(aggPart(x, i*n, n, u.Elem()), aggPart(y, i*n, n, u.Elem()), u.Elem()))
		}
		return r
	case *types.Interface:
		if a.r == nil || b.r == nil {
			return cx.Bool(a.r == nil && b.r == nil)
		}
		x, y := a.r.(*Iface), b.r.(*Iface)
		if x.t != y.t {
			return cx.tFalse
		}
		if !types.Comparable(x.t) {
			in.panicRT("comparing uncomparable type " + x.t.String())
		}
		return in.equal(x.v, y.v, x.t)
	case *types.Slice, *types.Map, *types.Signature:
		return cx.Bool(a.r == nil && b.r == nil)
	case *types.Basic: // unsafe.Pointer, untyped nil
		return cx.Bool(a.r == b.r && a.n == b.n)
	}
	if _, ok := a.r.(*SymPtr); ok {
		in.unsupported("comparison of symbolic pointers")
	}
	return cx.Bool(a.r == b.r && a.n == b.n)
}

func aggPart(x []Value, off, n int, t types.Type) Value {
	if isAgg(t) {
		return Value{r: &Agg{x[off : off+n : off+n]}}
	}
	return x[off]
}

// ---------------------------------------------------------------- conversions

func (c *compiler) convert(x *ssa.Convert, d int) iop {
	in := c.in
	o := c.op(x.X)
	ft, tt := x.X.Type(), x.Type()
	fw, fs, ff, fok := scalarInfo(ft)
	tw, ts, tf, tok := scalarInfo(tt)
	if fok && tok {
		switch {
		case !ff && !tf:
			m := mask(tw)
			return func(fr *frame) {
				v := o.get(fr.regs)
				if v.r == nil {
					n := v.n
					if fs {
						n = uint64(sext(n, fw))
					}
					fr.regs[d] = Value{n: n & m}
					return
				}
				t, ok := v.r.(*Term)
				if !ok {
					in.unsupported("pointer to integer conversion")
				}
				fr.regs[d] = tv(in.ctx.Resize(t, tw, fs))
			}
		case ff && tf:
			return func(fr *frame) {
				v := o.get(fr.regs)
				fr.regs[d] = tv(in.ctx.FToF(in.tm(v, fw), tw))
			}
		case ff:
			return func(fr *frame) {
				v := o.get(fr.regs)
				if v.r == nil {
					f := bitsToF(v.n, fw)
					fr.regs[d] = Value{n: goFToI(f, tw, ts)}
					return
				}
				fr.regs[d] = tv(in.symFToI(v.r.(*Term), tw, ts))
			}
		default:
			return func(fr *frame) {
				v := o.get(fr.regs)
				fr.regs[d] = tv(in.ctx.IToF(in.tm(v, fw), tw, fs))
			}
		}
	}
	if isString(tt) {
		if sl, ok := ft.Underlying().(*types.Slice); ok {
			ew, _, _, _ := scalarInfo(sl.Elem())
			return func(fr *frame) {
				v := o.get(fr.regs)
				s, _ := v.r.(*SliceV)
				if s == nil {
					fr.regs[d] = Value{}
					return
				}
				if ew == 32 {
					var rs []rune
					for i := 0; i < s.len; i++ {
						rs = append(rs, rune(in.concInt(s.obj.cells[s.off+i])))
					}
					fr.regs[d] = mkStr(string(rs))
					return
				}
				fr.regs[d] = strFromCells(s.obj.cells[s.off : s.off+s.len])
			}
		}
		if fok {
			return func(fr *frame) {
				n := in.concInt(o.get(fr.regs))
				if fs {
					n = uint64(sext(n, fw))
				}
				r := rune(n)
				if n > 0x10ffff {
					r = utf8.RuneError
				}
				fr.regs[d] = mkStr(string(r))
			}
		}
		return func(fr *frame) { fr.regs[d] = o.get(fr.regs) }
	}
	if isString(ft) {
		if sl, ok := tt.Underlying().(*types.Slice); ok {
			ew, _, _, _ := scalarInfo(sl.Elem())
			return func(fr *frame) {
				s := strOf(o.get(fr.regs))
				if ew == 32 {
					if s.cells != nil {
						in.unsupported("[]rune of symbolic string")
					}
					rs := []rune(s.s)
					ob := in.newObj(len(rs), sl.Elem())
					for i, r := range rs {
						ob.cells[i] = Value{n: uint64(uint32(r))}
					}
					fr.regs[d] = Value{r: &SliceV{ob, 0, len(rs), len(rs), 1}}
					return
				}
				n := s.length()
				ob := in.newObj(n, sl.Elem())
				for i := 0; i < n; i++ {
					ob.cells[i] = s.at(i)
				}
				fr.regs[d] = Value{r: &SliceV{ob, 0, n, n, 1}}
			}
		}
	}
	// unsafe.Pointer conversions and everything representation preserving
	if b, ok := ft.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		et := deref(tt)
		return func(fr *frame) { fr.regs[d] = in.fromUnsafe(o.get(fr.regs), et) }
	}
	return func(fr *frame) { fr.regs[d] = o.get(fr.regs) }
}

// fromUnsafe converts an unsafe.Pointer to *et when the layouts agree.
func (in *Interp) fromUnsafe(v Value, et types.Type) Value {
	ob, ok := v.r.(*Obj)
	if !ok || et == nil {
		return v
	}
	if int(v.n) < len(ob.cells) && ob.et != nil {
		ct := in.cellTypes(ob.et)
		var src types.Type
		if len(ct) > 0 {
			src = ct[int(v.n)%len(ct)]
		}
		dct := in.cellTypes(et)
		if src != nil && len(dct) > 0 {
			sw, _, _, ok1 := scalarInfo(src)
			dw, _, _, ok2 := scalarInfo(dct[0])
			if ok1 && ok2 && sw != dw {
				if dw == 8 && sw > 8 && in.spec == 0 {
					// reinterpret scalars as bytes (read only view)
					nb := int(sw) / 8
					cells := make([]Value, 0, (len(ob.cells)-int(v.n))*nb)
					for _, cl := range ob.cells[v.n:] {
						t := in.tm(cl, sw)
						for i := 0; i < nb; i++ {
							cells = append(cells, tv(in.ctx.Extract(t, uint8(8*i), 8)))
						}
					}
					no := in.newObj(0, types.Typ[types.Uint8])
					no.cells = cells
					return Value{r: no}
				}
				in.unsupported("unsafe reinterpretation of %v as %v", src, et)
			}
		}
	}
	return v
}

// goFToI is the amd64 behaviour of Go float to integer conversion.
func goFToI(f float64, w uint8, signed bool) uint64 {
	if signed {
		switch w {
		case 64:
			return uint64(int64(f))
		case 32:
			return uint64(uint32(int32(f)))
		case 16:
			return uint64(uint16(int16(f)))
		}
		return uint64(uint8(int8(f)))
	}
	switch w {
	case 64:
		return uint64(f)
	case 32:
		return uint64(uint32(f))
	case 16:
		return uint64(uint16(f))
	}
	return uint64(uint8(f))
}

// symFToI converts a symbolic float; out-of-range values are excluded by forking off an unsupported path.
func (in *Interp) symFToI(t *Term, w uint8, signed bool) *Term {
	c := in.ctx
	if t.op == OSIToF || t.op == OUIToF {
		if t.a.hi < 1<<52 {
			return c.Resize(t.a, w, false)
		}
	}
	// on amd64 narrow conversions go through int64
	lo, hi := -9223372036854775808.0, 9223372036854775808.0
	if !signed && w == 64 {
		lo, hi = -1.0, 18446744073709551616.0
	}
	fl := func(f float64) *Term { return c.Const(t.w, fToBits(f, t.w)) }
	inr := c.And(c.FLe(fl(lo), t), c.FLt(t, fl(hi)))
	if !signed && w == 64 {
		inr = c.And(c.FLt(fl(lo), t), c.FLt(t, fl(hi)))
	}
	if in.spec > 0 {
		in.prove(inr)
	} else if !in.branch(inr) {
		panic(&pathAbort{abUnsupported, "out of range float to integer conversion at " + in.where()})
	}
	if !signed && w == 64 {
		return c.FToI(t, 64, false)
	}
	return c.Resize(c.FToI(t, 64, true), w, true)
}

// ---------------------------------------------------------------- indexing and slicing

func (c *compiler) index(x *ssa.Index, d int) iop {
	in := c.in
	o, io := c.op(x.X), c.op(x.Index)
	iw, is, _, _ := scalarInfo(x.Index.Type())
	if isString(x.X.Type()) {
		return func(fr *frame) { fr.regs[d] = in.strIndex(strOf(o.get(fr.regs)), in.idx64(io.get(fr.regs), iw, is)) }
	}
	at := x.X.Type().Underlying().(*types.Array)
	et := at.Elem()
	n := in.lay.cells(et)
	agg := isAgg(et)
	ln := int(at.Len())
	return func(fr *frame) {
		a := o.get(fr.regs).r.(*Agg)
		iv := in.idx64(io.get(fr.regs), iw, is)
		if iv.r == nil {
			if iv.n >= uint64(ln) {
				in.panicRT(fmt.Sprintf("index out of range [%d] with length %d", int64(iv.n), ln))
			}
			fr.regs[d] = aggPart(a.c, int(iv.n)*n, n, et)
			return
		}
		t := iv.r.(*Term)
		in.inBounds(t, uint64(ln))
		ob := &Obj{cells: a.c}
		fr.regs[d] = in.load(Value{r: &SymPtr{ob, 0, n, ln, t}}, et, n, agg)
	}
}

func (in *Interp) strIndex(s *StrV, iv Value) Value {
	n := s.length()
	if iv.r == nil {
		if iv.n >= uint64(n) {
			in.panicRT(fmt.Sprintf("index out of range [%d] with length %d", int64(iv.n), n))
		}
		return s.at(int(iv.n))
	}
	t := iv.r.(*Term)
	in.inBounds(t, uint64(n))
	ob := &Obj{cells: s.toCells()}
	return in.load(Value{r: &SymPtr{ob, 0, 1, n, t}}, types.Typ[types.Uint8], 1, false)
}

func (c *compiler) indexAddr(x *ssa.IndexAddr, d int) iop {
	in := c.in
	o, io := c.op(x.X), c.op(x.Index)
	iw, is, _, _ := scalarInfo(x.Index.Type())
	if pt := deref(x.X.Type()); pt != nil {
		at := pt.Underlying().(*types.Array)
		es := in.lay.cells(at.Elem())
		ln := uint64(at.Len())
		return func(fr *frame) {
			p := o.get(fr.regs)
			iv := io.get(fr.regs)
			if iv.r != nil || is {
				iv = in.idx64(iv, iw, is)
			}
			if p.r == nil {
				in.panicRT(nilDeref)
			}
			ob, ok := p.r.(*Obj)
			if !ok {
				// symbolic outer index: concretize it
				sp := p.r.(*SymPtr)
				k := int(in.concretizeNS(sp.idx))
				ob = sp.obj
				p = Value{r: ob, n: uint64(sp.base + k*sp.stride)}
			}
			if iv.r == nil {
				if iv.n >= ln {
					in.panicRT(fmt.Sprintf("index out of range [%d] with length %d", int64(iv.n), ln))
				}
				fr.regs[d] = Value{r: ob, n: p.n + iv.n*uint64(es)}
				return
			}
			t := iv.r.(*Term)
			in.inBounds(t, ln)
			fr.regs[d] = in.symElem(ob, int(p.n), es, int(ln), t)
		}
	}
	return func(fr *frame) {
		v := o.get(fr.regs)
		iv := io.get(fr.regs)
		if iv.r != nil || is {
			iv = in.idx64(iv, iw, is)
		}
		s, _ := v.r.(*SliceV)
		if s == nil {
			in.panicRT("index out of range with length 0 (nil slice)")
		}
		if iv.r == nil {
			if iv.n >= uint64(s.len) {
				in.panicRT(fmt.Sprintf("index out of range [%d] with length %d", int64(iv.n), s.len))
			}
			fr.regs[d] = Value{r: s.obj, n: uint64(s.off + int(iv.n)*s.es)}
			return
		}
		t := iv.r.(*Term)
		in.inBounds(t, uint64(s.len))
		fr.regs[d] = in.symElem(s.obj, s.off, s.es, s.len, t)
	}
}

func (in *Interp) concretizeNS(t *Term) uint64 {
	if in.spec > 0 && !t.isConst() {
		if k, ok := in.kc[t]; ok {
			return k
		}
		in.specFail("compile.go:1423")
	}
	return in.concretize(t)
}

func (in *Interp) symElem(ob *Obj, base, es, n int, t *Term) Value {
	if k, ok := in.kc[t]; ok {
		return Value{r: ob, n: uint64(base + int(k)*es)}
	}
	if n > in.maxMux() {
		k := in.concretizeNS(t)
		return Value{r: ob, n: uint64(base + int(k)*es)}
	}
	if n == 1 {
		return Value{r: ob, n: uint64(base)}
	}
	return Value{r: &SymPtr{ob, base, es, n, t}}
}

func (in *Interp) maxMux() int {
	if in.e != nil && in.e.h != nil && in.e.h.MaxMux > 0 {
		return in.e.h.MaxMux
	}
	return 1024
}

func (c *compiler) slice(x *ssa.Slice, d int) iop {
	in := c.in
	o := c.op(x.X)
	var lo, hi, mx opnd
	var lw, hw, mw uint8
	var ls, hs, msg bool
	if x.Low != nil {
		lo = c.op(x.Low)
		lw, ls, _, _ = scalarInfo(x.Low.Type())
	}
	if x.High != nil {
		hi = c.op(x.High)
		hw, hs, _, _ = scalarInfo(x.High.Type())
	}
	if x.Max != nil {
		mx = c.op(x.Max)
		mw, msg, _, _ = scalarInfo(x.Max.Type())
	}
	str := isString(x.X.Type())
	var arrLen, arrES int
	if pt := deref(x.X.Type()); pt != nil {
		at := pt.Underlying().(*types.Array)
		arrLen = int(at.Len())
		arrES = in.lay.cells(at.Elem())
	}
	// bound evaluates a slice bound; symbolic ones are range checked against limit then concretized.
	bound := func(v Value, w uint8, s bool, limit int) int {
		v = in.idx64(v, w, s)
		if v.r != nil {
			t := v.r.(*Term)
			if k, ok := in.kc[t]; ok {
				v = Value{n: k}
			} else {
				if in.spec > 0 {
					in.specFail("compile.go:1483")
				}
				if !in.branch(in.ctx.Ule(t, in.ctx.Const(64, uint64(limit)))) {
					in.panicRT("slice bounds out of range [symbolic]")
				}
				v = Value{n: in.concretize(t)}
			}
		}
		if v.n > uint64(limit) {
			in.panicRT(fmt.Sprintf("slice bounds out of range [%d] with limit %d", int64(v.n), limit))
		}
		return int(v.n)
	}
	return func(fr *frame) {
		v := o.get(fr.regs)
		if str {
			s := strOf(v)
			h := s.length()
			if x.High != nil {
				h = bound(hi.get(fr.regs), hw, hs, h)
			}
			l := 0
			if x.Low != nil {
				l = bound(lo.get(fr.regs), lw, ls, h)
			}
			if s.cells != nil {
				fr.regs[d] = strFromCells(s.cells[l:h])
			} else {
				fr.regs[d] = mkStr(s.s[l:h])
			}
			return
		}
		var sv SliceV
		isnil := false
		if arrES > 0 || deref(x.X.Type()) != nil {
			if v.r == nil {
				in.panicRT(nilDeref)
			}
			ob, ok := v.r.(*Obj)
			if !ok {
				sp := v.r.(*SymPtr)
				k := int(in.concretizeNS(sp.idx))
				ob = sp.obj
				v.n = uint64(sp.base + k*sp.stride)
			}
			sv = SliceV{ob, int(v.n), arrLen, arrLen, arrES}
		} else if s, _ := v.r.(*SliceV); s != nil {
			sv = *s
		} else {
			isnil = true
		}
		m := sv.cap
		if x.Max != nil {
			m = bound(mx.get(fr.regs), mw, msg, sv.cap)
		}
		h := sv.len
		if x.High != nil {
			h = bound(hi.get(fr.regs), hw, hs, m)
		}
		l := 0
		if x.Low != nil {
			l = bound(lo.get(fr.regs), lw, ls, h)
		}
		if isnil {
			fr.regs[d] = Value{}
			return
		}
		fr.regs[d] = Value{r: &SliceV{sv.obj, sv.off + l*sv.es, h - l, m - l, sv.es}}
	}
}

const allocLabel = "memory is allocated in proportion to the input"

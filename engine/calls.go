package main

import (
	"fmt"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- types

func (in *Interp) canonT(t types.Type) types.Type {
	if c, ok := in.canon[t]; ok {
		return c
	}
	c := in.eng.canonType(t)
	in.canon[t] = c
	return c
}

// ---------------------------------------------------------------- maps

func (in *Interp) newMap(kt types.Type) *MapObj {
	return &MapObj{idx: map[string]int{}, kt: kt, old: !in.inPath, birth: in.seq}
}

func (in *Interp) mapTouch(m *MapObj) {
	if in.spec > 0 && m.birth < in.sideStart {
		in.specFail("calls.go:31")
	}
	if m.old && in.inPath && !m.logged {
		cp := *m
		cp.ents = append([]mapEntry(nil), m.ents...)
		cp.idx = map[string]int{}
		for k, v := range m.idx {
			cp.idx[k] = v
		}
		in.mlog = append(in.mlog, mapUndo{m, cp})
		m.logged = true
	}
}

// mapFind returns the entry index for k, or -1; may fork.
func (in *Interp) mapFind(m *MapObj, k Value) int {
	if isIface(m.kt) && k.r != nil {
		if i := k.r.(*Iface); !types.Comparable(i.t) {
			in.panicRT("hash of unhashable type " + i.t.String())
		}
	}
	var sb strings.Builder
	conc := in.concKey(k, m.kt, &sb)
	if conc {
		if i, ok := m.idx[sb.String()]; ok {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	for i := range m.ents {
		e := &m.ents[i]
		if e.del {
			continue
		}
		if conc && !e.sym {
			continue
		}
		c := in.equal(e.k, k, m.kt)
		if c.isFalse() {
			continue
		}
		if c.isTrue() || in.branch(c) {
			return i
		}
	}
	return -1
}

func (in *Interp) mapSet(m *MapObj, k, v Value) {
	i := in.mapFind(m, k)
	in.mapTouch(m)
	if i >= 0 {
		m.ents[i].v = v
		return
	}
	var sb strings.Builder
	conc := in.concKey(k, m.kt, &sb)
	m.ents = append(m.ents, mapEntry{k: k, v: v, sym: !conc})
	m.live++
	if conc {
		m.idx[sb.String()] = len(m.ents) - 1
	} else {
		m.nsym++
	}
}

func (in *Interp) mapDelete(m *MapObj, k Value) {
	i := in.mapFind(m, k)
	if i < 0 {
		return
	}
	in.mapTouch(m)
	e := &m.ents[i]
	if e.sym {
		m.nsym--
	} else {
		var sb strings.Builder
		in.concKey(e.k, m.kt, &sb)
		delete(m.idx, sb.String())
	}
	e.del = true
	e.v = Value{}
	m.live--
}

func (c *compiler) lookup(x *ssa.Lookup, d int) iop {
	in := c.in
	o, k := c.op(x.X), c.op(x.Index)
	if isString(x.X.Type()) {
		iw, is, _, _ := scalarInfo(x.Index.Type())
		return func(fr *frame) { fr.regs[d] = in.strIndex(strOf(o.get(fr.regs)), in.idx64(k.get(fr.regs), iw, is)) }
	}
	vt := x.X.Type().Underlying().(*types.Map).Elem()
	return func(fr *frame) {
		m, _ := o.get(fr.regs).r.(*MapObj)
		v := in.zeroOf(vt)
		ok := false
		if m != nil {
			if i := in.mapFind(m, k.get(fr.regs)); i >= 0 {
				v = m.ents[i].v
				ok = true
			}
		}
		if !x.CommaOk {
			fr.regs[d] = v
			return
		}
		if isAgg(vt) {
			fr.regs[d] = Value{r: &Agg{append(append([]Value{}, v.r.(*Agg).c...), Value{n: b2u(ok)})}}
		} else {
			fr.regs[d] = Value{r: &Agg{[]Value{v, {n: b2u(ok)}}}}
		}
	}
}

func (c *compiler) next(x *ssa.Next, d int) iop {
	in := c.in
	o := c.op(x.Iter)
	tp := x.Type().(*types.Tuple)
	kt, vt := tp.At(1).Type(), tp.At(2).Type()
	kn, vn := in.lay.cells(kt), in.lay.cells(vt)
	return func(fr *frame) {
		it := o.get(fr.regs).r.(*mapIter)
		if in.spec > 0 {
			in.specFail("calls.go:157")
		}
		if it.s {
			if it.pos >= len(it.bs) {
				fr.regs[d] = Value{r: &Agg{make([]Value, 3)}}
				return
			}
			r, n := utf8.DecodeRuneInString(it.bs[it.pos:])
			fr.regs[d] = Value{r: &Agg{[]Value{{n: 1}, {n: uint64(it.pos)}, {n: uint64(uint32(r))}}}}
			it.pos += n
			return
		}
		cs := make([]Value, 1+kn+vn)
		if it.m != nil {
			for it.pos < len(it.m.ents) {
				e := it.m.ents[it.pos]
				it.pos++
				if e.del {
					continue
				}
				cs[0] = Value{n: 1}
				put := func(off int, v Value, t types.Type) {
					if b, isb := t.Underlying().(*types.Basic); isb && b.Kind() == types.Invalid {
						return
					}
					if isAgg(t) {
						copy(cs[off:], v.r.(*Agg).c)
					} else {
						cs[off] = v
					}
				}
				put(1, e.k, kt)
				put(1+kn, e.v, vt)
				break
			}
		}
		fr.regs[d] = Value{r: &Agg{cs}}
	}
}

// ---------------------------------------------------------------- type assertions

func (c *compiler) typeAssert(x *ssa.TypeAssert, d int) iop {
	in := c.in
	o := c.op(x.X)
	at := x.AssertedType
	toI := isIface(at)
	var ct types.Type
	if !toI {
		ct = in.canonT(at)
	}
	zero := in.zeroOf(at)
	return func(fr *frame) {
		v := o.get(fr.regs)
		ok := false
		if v.r != nil {
			i := v.r.(*Iface)
			if toI {
				ok = in.eng.implements(i.t, at)
			} else if i.t == ct {
				ok = true
				v = i.v
			}
		}
		if !ok {
			if !x.CommaOk {
				in.panicRT("interface conversion failed: not " + at.String())
			}
			v = zero
		}
		if !x.CommaOk {
			fr.regs[d] = v
			return
		}
		if isAgg(at) {
			fr.regs[d] = Value{r: &Agg{append(append([]Value{}, v.r.(*Agg).c...), Value{n: b2u(ok)})}}
		} else {
			fr.regs[d] = Value{r: &Agg{[]Value{v, {n: b2u(ok)}}}}
		}
	}
}

// ---------------------------------------------------------------- calls

func (in *Interp) method(t types.Type, m *types.Func) *ssa.Function {
	k := mkeyT{t, m}
	if f, ok := in.mcache[k]; ok {
		return f
	}
	f := in.eng.lookupMethod(t, m)
	in.mcache[k] = f
	return f
}

// callMethodByName calls a method on an interface value from an intrinsic.
func (in *Interp) callMethodByName(iv Value, name string, args ...Value) (Value, bool) {
	if iv.r == nil {
		return Value{}, false
	}
	i := iv.r.(*Iface)
	f := in.eng.methodByName(i.t, name)
	if f == nil {
		return Value{}, false
	}
	return in.callFn(f, append([]Value{i.v}, args...), nil), true
}

func (c *compiler) args(cc *ssa.CallCommon) []opnd {
	var r []opnd
	for _, a := range cc.Args {
		r = append(r, c.op(a))
	}
	return r
}

func (c *compiler) call(cc *ssa.CallCommon) func(fr *frame) Value {
	in := c.in
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		as := c.args(cc)
		m := cc.Method
		return func(fr *frame) Value {
			v := recv.get(fr.regs)
			if v.r == nil {
				in.panicRT(nilDeref)
			}
			i := v.r.(*Iface)
			f := in.method(i.t, m)
			if f == nil {
				in.unsupported("method %s not found on %v", m.Name(), i.t)
			}
			args := make([]Value, len(as)+1)
			args[0] = i.v
			for j := range as {
				args[j+1] = as[j].get(fr.regs)
			}
			return in.callFn(f, args, nil)
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return c.builtin(b, cc)
	}
	as := c.args(cc)
	if f := cc.StaticCallee(); f != nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			clo := c.op(mc)
			return func(fr *frame) Value {
				args := make([]Value, len(as))
				for j := range as {
					args[j] = as[j].get(fr.regs)
				}
				return in.callFn(f, args, clo.get(fr.regs).r.(*Closure).bind)
			}
		}
		switch len(as) {
		case 1:
			return func(fr *frame) Value {
				args := [1]Value{as[0].get(fr.regs)}
				return in.callFn(f, args[:], nil)
			}
		}
		return func(fr *frame) Value {
			args := make([]Value, len(as))
			for j := range as {
				args[j] = as[j].get(fr.regs)
			}
			return in.callFn(f, args, nil)
		}
	}
	fv := c.op(cc.Value)
	return func(fr *frame) Value {
		args := make([]Value, len(as))
		for j := range as {
			args[j] = as[j].get(fr.regs)
		}
		return in.callVal(fv.get(fr.regs), args)
	}
}

// callClosure evaluates function and arguments now, for a later (deferred) call.
func (c *compiler) callClosure(cc *ssa.CallCommon) func(fr *frame) func() {
	in := c.in
	as := c.args(cc)
	eval := func(fr *frame) []Value {
		args := make([]Value, len(as))
		for j := range as {
			args[j] = as[j].get(fr.regs)
		}
		return args
	}
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		m := cc.Method
		return func(fr *frame) func() {
			v := recv.get(fr.regs)
			args := eval(fr)
			return func() {
				if v.r == nil {
					in.panicRT(nilDeref)
				}
				i := v.r.(*Iface)
				in.callDeferred(fr, in.method(i.t, m), append([]Value{i.v}, args...), nil)
			}
		}
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		f := c.builtin(cc.Value.(*ssa.Builtin), cc)
		return func(fr *frame) func() { return func() { f(fr) } }
	}
	fv := c.op(cc.Value)
	return func(fr *frame) func() {
		v := fv.get(fr.regs)
		args := eval(fr)
		return func() {
			if v.r == nil {
				in.panicRT(nilDeref)
			}
			cl := v.r.(*Closure)
			if cl.nat != nil {
				cl.nat(in, args)
				return
			}
			in.callDeferred(fr, cl.fn, args, cl.bind)
		}
	}
}

func (in *Interp) callDeferred(fr *frame, f *ssa.Function, args, bind []Value) {
	old := in.nextDefPar
	in.nextDefPar = fr
	in.callFn(f, args, bind)
	in.nextDefPar = old
}

func (in *Interp) sliceOf(v Value) (SliceV, bool) {
	if v.r == nil {
		return SliceV{}, false
	}
	return *v.r.(*SliceV), true
}

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon) func(fr *frame) Value {
	in := c.in
	as := c.args(cc)
	switch b.Name() {
	case "len", "cap":
		isCap := b.Name() == "cap"
		t := cc.Args[0].Type()
		if isString(t) {
			return func(fr *frame) Value { return Value{n: uint64(strOf(as[0].get(fr.regs)).length())} }
		}
		return func(fr *frame) Value {
			v := as[0].get(fr.regs)
			switch s := v.r.(type) {
			case nil:
				if p := deref(t); p != nil {
					return Value{n: uint64(p.Underlying().(*types.Array).Len())}
				}
				return Value{}
			case *SliceV:
				if isCap {
					return Value{n: uint64(s.cap)}
				}
				return Value{n: uint64(s.len)}
			case *MapObj:
				return Value{n: uint64(s.live)}
			case *Agg:
				return Value{n: uint64(t.Underlying().(*types.Array).Len())}
			case *Obj:
				return Value{n: uint64(deref(t).Underlying().(*types.Array).Len())}
			}
			in.unsupported("len of %T", v.r)
			return Value{}
		}
	case "append":
		st := cc.Args[0].Type().Underlying().(*types.Slice)
		et := st.Elem()
		es := in.lay.cells(et)
		strArg := isString(cc.Args[1].Type())
		ct := in.cellTypes(et)
		return func(fr *frame) Value {
			dv, sv := as[0].get(fr.regs), as[1].get(fr.regs)
			dst, dok := in.sliceOf(dv)
			var src []Value
			n := 0
			if strArg {
				src = strOf(sv).toCells()
				n = len(src)
			} else if s, ok := in.sliceOf(sv); ok {
				src = s.obj.cells[s.off : s.off+s.len*es]
				n = s.len
			}
			if n == 0 {
				return dv
			}
			if !dok {
				dst = SliceV{es: es}
			}
			need := dst.len + n
			if need <= dst.cap {
				tmp := append([]Value(nil), src...)
				base := dst.off + dst.len*es
				for i, v := range tmp {
					in.setCell(dst.obj, base+i, v, ct[i%max(es, 1)])
				}
				dst.len = need
				return Value{r: &dst}
			}
			nc := dst.cap
			if need > 2*nc {
				nc = need
			} else if nc < 256 {
				nc = 2 * nc
			} else {
				for nc < need {
					nc += (nc + 768) / 4
				}
			}
			if need > 1<<24 {
				in.unsupported("append beyond 2^24 elements")
			}
			o := in.newObj(nc*es, et)
			if dst.len > 0 {
				copy(o.cells, dst.obj.cells[dst.off:dst.off+dst.len*es])
			}
			copy(o.cells[dst.len*es:], src)
			return Value{r: &SliceV{o, 0, need, nc, es}}
		}
	case "copy":
		strArg := isString(cc.Args[1].Type())
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		es := in.lay.cells(et)
		ct := in.cellTypes(et)
		return func(fr *frame) Value {
			dst, _ := in.sliceOf(as[0].get(fr.regs))
			sv := as[1].get(fr.regs)
			var src []Value
			n := 0
			if strArg {
				src = strOf(sv).toCells()
				n = len(src)
			} else if s, ok := in.sliceOf(sv); ok {
				src = s.obj.cells[s.off : s.off+s.len*es]
				n = s.len
			}
			n = min(n, dst.len)
			tmp := append([]Value(nil), src[:n*es]...)
			for i, v := range tmp {
				in.setCell(dst.obj, dst.off+i, v, ct[i%max(es, 1)])
			}
			return Value{n: uint64(n)}
		}
	case "clear":
		t := cc.Args[0].Type()
		if _, ok := t.Underlying().(*types.Map); ok {
			return func(fr *frame) Value {
				if m, _ := as[0].get(fr.regs).r.(*MapObj); m != nil {
					in.mapTouch(m)
					m.ents, m.idx, m.nsym, m.live = nil, map[string]int{}, 0, 0
				}
				return Value{}
			}
		}
		ct := in.cellTypes(t.Underlying().(*types.Slice).Elem())
		return func(fr *frame) Value {
			if s, ok := in.sliceOf(as[0].get(fr.regs)); ok {
				for i := 0; i < s.len*s.es; i++ {
					in.setCell(s.obj, s.off+i, Value{}, ct[i%max(s.es, 1)])
				}
			}
			return Value{}
		}
	case "delete":
		return func(fr *frame) Value {
			if m, _ := as[0].get(fr.regs).r.(*MapObj); m != nil {
				in.mapDelete(m, as[1].get(fr.regs))
			}
			return Value{}
		}
	case "min", "max":
		isMin := b.Name() == "min"
		t := cc.Args[0].Type()
		w, signed, fl, ok := scalarInfo(t)
		return func(fr *frame) Value {
			r := as[0].get(fr.regs)
			for _, a := range as[1:] {
				v := a.get(fr.regs)
				if !ok { // strings
					p, q := strOf(r), strOf(v)
					l := in.strLess(q, p)
					if !isMin {
						l = in.strLess(p, q)
					}
					if in.branch(l) {
						r = v
					}
					continue
				}
				p, q := in.tm(r, w), in.tm(v, w)
				if fl {
					if !in.merge && in.spec == 0 && !(p.isConst() && q.isConst()) {
						if in.branch(in.ctx.FLt(p, q)) {
							r = tv(p)
							if !isMin {
								r = tv(q)
							}
							continue
						}
						if in.branch(in.ctx.FLt(q, p)) {
							r = tv(q)
							if !isMin {
								r = tv(p)
							}
							continue
						}
					}
					r = tv(in.floatMinMax(p, q, isMin))
					continue
				}
				var l *Term
				if signed {
					l = in.ctx.Slt(q, p)
				} else {
					l = in.ctx.Ult(q, p)
				}
				if !isMin {
					if signed {
						l = in.ctx.Slt(p, q)
					} else {
						l = in.ctx.Ult(p, q)
					}
				}
				r = tv(in.ctx.Ite(l, q, p))
			}
			return r
		}
	case "print", "println":
		return func(fr *frame) Value { return Value{} }
	case "recover":
		return func(fr *frame) Value {
			p := fr.defPar
			if p == nil || p.pan == nil || p.rec {
				return Value{}
			}
			p.rec = true
			return in.panicValue(p.pan)
		}
	case "panic":
		return func(fr *frame) Value {
			if in.spec > 0 {
				in.specFail("calls.go:591")
			}
			panic(&TPanic{val: as[0].get(fr.regs), where: in.where(), trace: in.trace()})
		}
	case "ssa:wrapnilchk":
		return func(fr *frame) Value {
			v := as[0].get(fr.regs)
			if v.r == nil {
				in.panicRT(nilDeref)
			}
			return v
		}
	case "String": // unsafe.String
		return func(fr *frame) Value {
			p := as[0].get(fr.regs)
			n := int(in.concInt(as[1].get(fr.regs)))
			if n == 0 {
				return Value{}
			}
			if so, ok := p.r.(*strPtr); ok {
				return strFromCells(so.s.toCells()[int(p.n) : int(p.n)+n])
			}
			o := p.r.(*Obj)
			return strFromCells(o.cells[p.n : int(p.n)+n])
		}
	case "StringData":
		return func(fr *frame) Value {
			s := strOf(as[0].get(fr.regs))
			if s.length() == 0 {
				return Value{}
			}
			o := in.newObj(0, types.Typ[types.Uint8])
			o.cells = append([]Value{}, s.toCells()...)
			return Value{r: o}
		}
	case "SliceData":
		return func(fr *frame) Value {
			s, ok := in.sliceOf(as[0].get(fr.regs))
			if !ok {
				return Value{}
			}
			return Value{r: s.obj, n: uint64(s.off)}
		}
	case "Slice": // unsafe.Slice
		et := deref(cc.Args[0].Type())
		es := in.lay.cells(et)
		return func(fr *frame) Value {
			p := as[0].get(fr.regs)
			n := int(in.concInt(as[1].get(fr.regs)))
			if p.r == nil {
				if n > 0 {
					in.panicRT("unsafe.Slice: ptr is nil and len is not zero")
				}
				return Value{}
			}
			o, ok := p.r.(*Obj)
			if !ok {
				in.unsupported("unsafe.Slice of %T", p.r)
			}
			if int(p.n)+n*es > len(o.cells) {
				in.panicRT("unsafe.Slice out of range")
			}
			return Value{r: &SliceV{o, int(p.n), n, n, es}}
		}
	}
	name := b.Name()
	return func(fr *frame) Value {
		in.unsupported("builtin %s", name)
		return Value{}
	}
}

type strPtr struct{ s *StrV }

func (in *Interp) floatMinMax(p, q *Term, isMin bool) *Term {
	c := in.ctx
	nan := c.Or(c.FIsNaN(p), c.FIsNaN(q))
	lt := c.FLt(q, p)
	if !isMin {
		lt = c.FLt(p, q)
	}
	// signed zeros: min(-0,0) = -0
	bothZ := c.And(c.fzero(p), c.fzero(q))
	var z *Term
	if isMin {
		z = c.BOr(p, q)
	} else {
		z = c.BAnd(p, q)
	}
	qn := c.Const(p.w, 0x7ff8000000000001)
	if p.w == 32 {
		qn = c.Const(32, 0x7fc00000)
	}
	return c.Ite(nan, qn, c.Ite(bothZ, z, c.Ite(lt, q, p)))
}

// panicValue converts a panic into the interface value recover returns.
func (in *Interp) panicValue(p *TPanic) Value {
	if p.rt == "" {
		return p.val
	}
	return in.newError("runtime error: " + p.rt)
}

// newError builds an *errors.errorString.
func (in *Interp) newError(msg string) Value {
	t := in.eng.errStringT
	if t == nil {
		return Value{r: &Iface{in.canonT(types.Typ[types.String]), mkStr(msg)}}
	}
	o := in.newObj(1, t.Elem())
	o.cells[0] = mkStr(msg)
	return Value{r: &Iface{in.canonT(t), Value{r: o}}}
}

func (in *Interp) fmtVal(v Value, verb byte) string {
	if v.r == nil {
		return "<nil>"
	}
	i, ok := v.r.(*Iface)
	if !ok {
		return fmt.Sprintf("%T", v.r)
	}
	return in.fmtTyped(i.v, i.t)
}

func (in *Interp) fmtTyped(v Value, t types.Type) string {
	if isString(t) {
		s := strOf(v)
		if s.cells == nil {
			return s.s
		}
		return "<symbolic string>"
	}
	if w, signed, fl, ok := scalarInfo(t); ok {
		if v.r != nil {
			return "<sym>"
		}
		switch {
		case w == 0:
			return fmt.Sprint(v.n != 0)
		case fl:
			return fmt.Sprint(bitsToF(v.n, w))
		case signed:
			return fmt.Sprint(sext(v.n, w))
		}
		return fmt.Sprint(v.n)
	}
	if o, ok := v.r.(*Obj); ok && o.et != nil && t.String() == "*errors.errorString" {
		return strOf(o.cells[v.n]).s
	}
	return "<" + t.String() + ">"
}

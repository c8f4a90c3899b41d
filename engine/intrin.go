package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrFn = func(in *Interp, args []Value) Value

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (e *Engine) intrinsic(fn *ssa.Function) intrFn {
	name := fnName(fn)
	if f, ok := intrinsics[name]; ok {
		return f
	}
	if strings.HasPrefix(name, "(") && strings.Contains(name, "reflect.Value)") {
		return nil
	}
	if mf, ok := mathUnary[name]; ok {
		return func(in *Interp, a []Value) Value {
			x := in.concretize(in.tm(a[0], 64))
			return Value{n: math.Float64bits(mf(math.Float64frombits(x)))}
		}
	}
	if mf, ok := mathBinary[name]; ok {
		return func(in *Interp, a []Value) Value {
			x, y := in.concretize(in.tm(a[0], 64)), in.concretize(in.tm(a[1], 64))
			return Value{n: math.Float64bits(mf(math.Float64frombits(x), math.Float64frombits(y)))}
		}
	}
	if strings.HasPrefix(name, "(*sync.") {
		switch fn.Name() {
		case "Lock", "Unlock", "RLock", "RUnlock", "Add", "Done", "Wait":
			return func(in *Interp, a []Value) Value { return Value{} }
		}
	}
	return nil
}

var mathUnary = map[string]func(float64) float64{
	"math.Log": math.Log, "math.Log2": math.Log2, "math.Log10": math.Log10, "math.Log1p": math.Log1p, "math.Exp": math.Exp,
	"math.Expm1": math.Expm1, "math.Sin": math.Sin, "math.Cos": math.Cos, "math.Tanh": math.Tanh, "math.Asin": math.Asin, "math.Cbrt": math.Cbrt,
	"math.Exp2": math.Exp2, "math.Gamma": math.Gamma, "math.Erf": math.Erf,
}
var mathBinary = map[string]func(a, b float64) float64{
	"math.Pow": math.Pow, "math.Atan2": math.Atan2, "math.Mod": math.Mod, "math.Hypot": math.Hypot, "math.Nextafter": math.Nextafter,
}

var intrinsics map[string]intrFn

func nop(in *Interp, a []Value) Value   { return Value{} }
func ident(in *Interp, a []Value) Value { return a[0] }

func rnd(k uint64) intrFn {
	return func(in *Interp, a []Value) Value { return tv(in.ctx.FRnd(k, in.tm(a[0], 64))) }
}

func strArg(v Value) string {
	s := strOf(v)
	if s.cells != nil {
		return "?"
	}
	return s.s
}

// argFix adjusts the arguments of functions that are then executed as they are. encoding/binary
// has reflection-free paths for the basic types only: values of a named basic type are passed
// as their underlying type, which has the same encoding.
var argFix = map[string]func(in *Interp, a []Value){
	"encoding/binary.Write": func(in *Interp, a []Value) { a[2] = in.basicData(a[2]) },
	"encoding/binary.Read":  func(in *Interp, a []Value) { a[2] = in.basicData(a[2]) },
	"encoding/binary.Size":  func(in *Interp, a []Value) { a[0] = in.basicData(a[0]) },
}

func (in *Interp) basicData(v Value) Value {
	if ch, ok := v.r.(*Choice); ok && ch != nil {
		v = in.force(v)
	}
	i, ok := v.r.(*Iface)
	if !ok {
		return v
	}
	under := func(t types.Type) types.Type {
		if b, ok := t.Underlying().(*types.Basic); ok {
			return b
		}
		return nil
	}
	switch t := i.t.(type) {
	case *types.Named:
		if u := under(t); u != nil {
			return Value{r: &Iface{in.canonT(u), i.v}}
		}
	case *types.Pointer:
		if _, ok := t.Elem().(*types.Named); ok {
			if u := under(t.Elem()); u != nil {
				return Value{r: &Iface{in.canonT(types.NewPointer(u)), i.v}}
			}
		}
	case *types.Slice:
		if _, ok := t.Elem().(*types.Named); ok {
			if u := under(t.Elem()); u != nil {
				return Value{r: &Iface{in.canonT(types.NewSlice(u)), i.v}}
			}
		}
	}
	return v
}

func init() {
	z := zzPath + "."
	intrinsics = map[string]intrFn{
		z + "Nondet": func(in *Interp, a []Value) Value {
			if in.spec > 0 {
				in.specFail("intrin.go:87")
			}
			if !in.inPath {
				panic("Nondet outside a path")
			}
			w := uint8(a[1].n)
			if w == 0 || w > 64 {
				panic("Nondet width")
			}
			t := in.ctx.Var(in.nvars, w, strArg(a[0]))
			in.nvars++
			return tv(in.ctx.ZExt(t, 64))
		},
		z + "Between": func(in *Interp, a []Value) Value {
			if in.spec > 0 {
				in.specFail("intrin.go:between")
			}
			w := uint8(a[1].n)
			if w == 0 || w > 64 || !in.inPath {
				panic("Between")
			}
			lo, hi := in.concretizeNS(in.tm(a[2], 64)), in.concretizeNS(in.tm(a[3], 64))
			idx := in.nvars
			t := in.ctx.Var(idx, w, strArg(a[0]))
			in.nvars++
			if lo > hi || hi > mask(w) {
				panic(&pathAbort{abAssume, ""})
			}
			if m := in.ctx.model; in.decIdx >= len(in.prefix) && (idx >= len(m) && lo > 0 || idx < len(m) && (m[idx] < lo || m[idx] > hi)) {
				m = append([]uint64{}, m...)
				for len(m) <= idx {
					m = append(m, 0)
				}
				m[idx] = lo
				in.ctx.newModel(m)
			}
			if c := in.ctx.And(in.ctx.Ule(in.ctx.Const(w, lo), t), in.ctx.Ule(t, in.ctx.Const(w, hi))); !c.isTrue() {
				in.assumePC(c)
			}
			return tv(in.ctx.ZExt(in.ctx.In(t, lo, hi), 64))
		},
		z + "Choose": func(in *Interp, a []Value) Value {
			return Value{n: in.chooseN(strArg(a[0]), in.concretizeNS(in.tm(a[1], 64)))}
		},
		z + "Assume": func(in *Interp, a []Value) Value { in.assume(in.boolTerm(a[0])); return Value{} },
		z + "Assert": func(in *Interp, a []Value) Value {
			c := in.boolTerm(a[0])
			if in.spec > 0 {
				if in.guard != nil {
					c = in.ctx.Or(in.ctx.Not(in.guard), c)
				}
				if v, ok := in.lookup(c); !ok || !v {
					in.pending = append(in.pending, pendingAssert{c, strArg(a[1])})
				}
				in.st.Asserts++
				return Value{}
			}
			in.assertCond(c, strArg(a[1]))
			return Value{}
		},
		z + "allocLimit": func(in *Interp, a []Value) Value {
			if in.spec > 0 {
				in.specFail("allocLimit")
			}
			in.allocLim = int(in.concretizeNS(in.tm(a[0], 64)))
			return Value{}
		},
		z + "allocated": func(in *Interp, a []Value) Value { return Value{n: 0} },
		z + "Cover": func(in *Interp, a []Value) Value {
			if in.spec > 0 {
				in.specFail("intrin.go:118")
			}
			in.st.Covers[strArg(a[0])]++
			return Value{}
		},
		z + "Observe": func(in *Interp, a []Value) Value {
			if in.spec > 0 {
				in.specFail("intrin.go:125")
			}
			in.obs = append(in.obs, in.tm(a[0], 64))
			return Value{}
		},
		z + "Concretize": func(in *Interp, a []Value) Value {
			if a[0].r == nil {
				return a[0]
			}
			return Value{n: in.concretizeNS(a[0].r.(*Term))}
		},
		z + "IsConcrete": func(in *Interp, a []Value) Value { return Value{n: b2u(a[0].r == nil)} },
		z + "Merging": func(in *Interp, a []Value) Value {
			if in.spec > 0 {
				in.specFail("intrin.go:139")
			}
			in.merge = a[0].n != 0
			return Value{}
		},
		z + "And": func(in *Interp, a []Value) Value { return tv(in.ctx.And(in.boolTerm(a[0]), in.boolTerm(a[1]))) },
		z + "Or":  func(in *Interp, a []Value) Value { return tv(in.ctx.Or(in.boolTerm(a[0]), in.boolTerm(a[1]))) },
		z + "Implies": func(in *Interp, a []Value) Value {
			return tv(in.ctx.Or(in.ctx.Not(in.boolTerm(a[0])), in.boolTerm(a[1])))
		},
		z + "Iff": func(in *Interp, a []Value) Value { return tv(in.ctx.Eq(in.boolTerm(a[0]), in.boolTerm(a[1]))) },
		z + "Ite": func(in *Interp, a []Value) Value {
			return tv(in.ctx.Ite(in.boolTerm(a[0]), in.tm(a[1], 64), in.tm(a[2], 64)))
		},
		z + "IteB": func(in *Interp, a []Value) Value {
			return tv(in.ctx.Ite(in.boolTerm(a[0]), in.boolTerm(a[1]), in.boolTerm(a[2])))
		},
		z + "B2U": func(in *Interp, a []Value) Value {
			return tv(in.ctx.Ite(in.boolTerm(a[0]), in.ctx.Const(64, 1), in.ctx.Const(64, 0)))
		},
		z + "Msg": func(in *Interp, a []Value) Value { return mkStr("msg") },

		// math
		"math.Float64bits":     ident,
		"math.Float64frombits": ident,
		"math.Float32bits":     ident,
		"math.Float32frombits": ident,
		"math.Sqrt":            func(in *Interp, a []Value) Value { return tv(in.ctx.FBin(OFSqrt, in.tm(a[0], 64), nil)) },
		"math.sqrt":            func(in *Interp, a []Value) Value { return tv(in.ctx.FBin(OFSqrt, in.tm(a[0], 64), nil)) },
		"math.Floor":           rnd(3),
		"math.Ceil":            rnd(2),
		"math.Trunc":           rnd(1),
		"math.RoundToEven":     rnd(0),
		"math.Round":           rnd(4),
		"math.Abs": func(in *Interp, a []Value) Value {
			return tv(in.ctx.BAnd(in.tm(a[0], 64), in.ctx.Const(64, mask(63))))
		},
		"math.Copysign": func(in *Interp, a []Value) Value {
			c := in.ctx
			return tv(c.BOr(c.BAnd(in.tm(a[0], 64), c.Const(64, mask(63))), c.BAnd(in.tm(a[1], 64), c.Const(64, 1<<63))))
		},
		"math.Signbit": func(in *Interp, a []Value) Value { return tv(in.ctx.fsign(in.tm(a[0], 64))) },
		"math.IsNaN":   func(in *Interp, a []Value) Value { return tv(in.ctx.FIsNaN(in.tm(a[0], 64))) },
		"math.IsInf": func(in *Interp, a []Value) Value {
			c := in.ctx
			t := in.tm(a[0], 64)
			s := int64(in.concInt(a[1]))
			p := c.Eq(t, c.Const(64, math.Float64bits(math.Inf(1))))
			n := c.Eq(t, c.Const(64, math.Float64bits(math.Inf(-1))))
			switch {
			case s > 0:
				return tv(p)
			case s < 0:
				return tv(n)
			}
			return tv(c.Or(p, n))
		},
		"math.Min": func(in *Interp, a []Value) Value { return tv(in.floatMinMax2(a, true)) },
		"math.Max": func(in *Interp, a []Value) Value { return tv(in.floatMinMax2(a, false)) },
		"math.FMA": func(in *Interp, a []Value) Value {
			if a[0].r != nil || a[1].r != nil || a[2].r != nil {
				in.unsupported("math.FMA")
			}
			return Value{n: math.Float64bits(math.FMA(math.Float64frombits(a[0].n), math.Float64frombits(a[1].n), math.Float64frombits(a[2].n)))}
		},

		// bits
		"math/bits.LeadingZeros64":  func(in *Interp, a []Value) Value { return in.clz(a[0], 64) },
		"math/bits.LeadingZeros32":  func(in *Interp, a []Value) Value { return in.clz(a[0], 32) },
		"math/bits.LeadingZeros16":  func(in *Interp, a []Value) Value { return in.clz(a[0], 16) },
		"math/bits.LeadingZeros8":   func(in *Interp, a []Value) Value { return in.clz(a[0], 8) },
		"math/bits.LeadingZeros":    func(in *Interp, a []Value) Value { return in.clz(a[0], 64) },
		"math/bits.Len64":           func(in *Interp, a []Value) Value { return in.blen(a[0], 64) },
		"math/bits.Len32":           func(in *Interp, a []Value) Value { return in.blen(a[0], 32) },
		"math/bits.Len16":           func(in *Interp, a []Value) Value { return in.blen(a[0], 16) },
		"math/bits.Len8":            func(in *Interp, a []Value) Value { return in.blen(a[0], 8) },
		"math/bits.Len":             func(in *Interp, a []Value) Value { return in.blen(a[0], 64) },
		"math/bits.TrailingZeros64": func(in *Interp, a []Value) Value { return in.ctz(a[0], 64) },
		"math/bits.TrailingZeros32": func(in *Interp, a []Value) Value { return in.ctz(a[0], 32) },
		"math/bits.TrailingZeros16": func(in *Interp, a []Value) Value { return in.ctz(a[0], 16) },
		"math/bits.TrailingZeros8":  func(in *Interp, a []Value) Value { return in.ctz(a[0], 8) },
		"math/bits.TrailingZeros":   func(in *Interp, a []Value) Value { return in.ctz(a[0], 64) },
		"math/bits.OnesCount64":     func(in *Interp, a []Value) Value { return in.popcnt(a[0], 64) },
		"math/bits.OnesCount32":     func(in *Interp, a []Value) Value { return in.popcnt(a[0], 32) },
		"math/bits.OnesCount16":     func(in *Interp, a []Value) Value { return in.popcnt(a[0], 16) },
		"math/bits.OnesCount8":      func(in *Interp, a []Value) Value { return in.popcnt(a[0], 8) },
		"math/bits.OnesCount":       func(in *Interp, a []Value) Value { return in.popcnt(a[0], 64) },

		// errors and formatting
		"errors.Is": func(in *Interp, a []Value) Value { return Value{n: b2u(in.errorsIs(a[0], a[1]))} },
		"fmt.Errorf": func(in *Interp, a []Value) Value {
			if in.spec > 0 && false {
				in.specFail("intrin.go:231")
			}
			f := strArg(a[0])
			var wrapped Value
			if strings.Contains(f, "%w") {
				if s, ok := in.sliceOf(a[1]); ok {
					for i := 0; i < s.len; i++ {
						v := s.obj.cells[s.off+i]
						if v.r != nil && in.eng.methodByName(v.r.(*Iface).t, "Error") != nil {
							wrapped = v
						}
					}
				}
			}
			msg := in.sprintf(f, a[1])
			if wrapped.r != nil && in.eng.wrapErrT != nil {
				o := in.newObj(2, in.eng.wrapErrT.Elem())
				o.cells[0] = mkStr(msg)
				o.cells[1] = wrapped
				return Value{r: &Iface{in.canonT(in.eng.wrapErrT), Value{r: o}}}
			}
			return in.newError(msg)
		},
		"fmt.Sprintf":  func(in *Interp, a []Value) Value { return mkStr(in.sprintf(strArg(a[0]), a[1])) },
		"fmt.Sprint":   func(in *Interp, a []Value) Value { return mkStr(in.sprintf("", a[0])) },
		"fmt.Sprintln": func(in *Interp, a []Value) Value { return mkStr(in.sprintf("", a[0]) + "\n") },
		"fmt.Printf":   func(in *Interp, a []Value) Value { return Value{r: &Agg{[]Value{{}, {}}}} },
		"fmt.Println":  func(in *Interp, a []Value) Value { return Value{r: &Agg{[]Value{{}, {}}}} },
		"fmt.Print":    func(in *Interp, a []Value) Value { return Value{r: &Agg{[]Value{{}, {}}}} },
		"fmt.Fprintf": func(in *Interp, a []Value) Value {
			s := in.sprintf(strArg(a[1]), a[2])
			o := in.newObj(len(s), types.Typ[types.Uint8])
			for i := 0; i < len(s); i++ {
				o.cells[i] = u8v(s[i])
			}
			r, ok := in.callMethodByName(a[0], "Write", Value{r: &SliceV{o, 0, len(s), len(s), 1}})
			if !ok {
				in.unsupported("Fprintf target")
			}
			return r
		},

		// sorting
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,

		// reflect (only what IsNil needs)
		"reflect.ValueOf": func(in *Interp, a []Value) Value {
			o := in.newObj(1, nil)
			o.cells[0] = a[0]
			return Value{r: &Agg{[]Value{{r: o}, {}, {}}}}
		},
		"(reflect.Value).Kind": func(in *Interp, a []Value) Value {
			iv := a[0].r.(*Agg).c[0].r.(*Obj).cells[0]
			return Value{n: uint64(kindOf(iv))}
		},
		"(reflect.Value).IsNil": func(in *Interp, a []Value) Value {
			iv := a[0].r.(*Agg).c[0].r.(*Obj).cells[0]
			if iv.r == nil {
				in.panicRT("reflect: IsNil of zero Value")
			}
			return Value{n: b2u(iv.r.(*Iface).v.r == nil)}
		},
		"reflect.DeepEqual":                  func(in *Interp, a []Value) Value { in.unsupported("reflect.DeepEqual"); return Value{} },
		"internal/reflectlite.TypeOf":        func(in *Interp, a []Value) Value { return Value{} },
		"(reflect.rtype).Elem":               nop,
		"(*internal/reflectlite.rtype).Elem": nop,

		// runtime, time
		"time.Now":                   func(in *Interp, a []Value) Value { return Value{r: &Agg{make([]Value, 3)}} },
		"(time.Time).UnixNano":       func(in *Interp, a []Value) Value { return Value{n: 1} },
		"runtime.GC":                 nop,
		"runtime.KeepAlive":          nop,
		"internal/abi.NoEscape":      ident,
		"internal/abi.Escape":        ident,
		"strings.noescape":           ident,
		"internal/race.Enabled":      nop,
		"internal/bytealg.IndexByte": func(in *Interp, a []Value) Value { return in.indexByte(in.cellsOfSlice(a[0]), a[1]) },
		"internal/bytealg.IndexByteString": func(in *Interp, a []Value) Value {
			return in.indexByte(strOf(a[0]).toCells(), a[1])
		},
		"internal/bytealg.MakeNoZero": func(in *Interp, a []Value) Value {
			n := int(in.concInt(a[0]))
			return in.makeSlice(types.Typ[types.Uint8], 1, n, n)
		},
		"internal/bytealg.Compare": func(in *Interp, a []Value) Value {
			x, y := strFromCells(in.cellsOfSlice(a[0])), strFromCells(in.cellsOfSlice(a[1]))
			lt, gt := in.strLess(strOf(x), strOf(y)), in.strLess(strOf(y), strOf(x))
			c := in.ctx
			return tv(c.Ite(lt, c.Const(64, ^uint64(0)), c.Ite(gt, c.Const(64, 1), c.Const(64, 0))))
		},
		"internal/bytealg.Equal": func(in *Interp, a []Value) Value {
			return tv(in.equal(strFromCells(in.cellsOfSlice(a[0])), strFromCells(in.cellsOfSlice(a[1])), types.Typ[types.String]))
		},
		"bytes.Equal": func(in *Interp, a []Value) Value {
			return tv(in.equal(strFromCells(in.cellsOfSlice(a[0])), strFromCells(in.cellsOfSlice(a[1])), types.Typ[types.String]))
		},
		"internal/bytealg.CountString": func(in *Interp, a []Value) Value {
			n := 0
			for _, c := range strOf(a[0]).toCells() {
				if in.branch(in.ctx.Eq(in.tm(c, 8), in.tm(a[1], 8))) {
					n++
				}
			}
			return Value{n: uint64(n)}
		},
		"strings.Index": func(in *Interp, a []Value) Value {
			p, q := strOf(a[0]), strOf(a[1])
			if p.cells != nil || q.cells != nil {
				in.unsupported("strings.Index on symbolic string")
			}
			return Value{n: uint64(strings.Index(p.s, q.s))}
		},
		"internal/stringslite.Index": func(in *Interp, a []Value) Value {
			p, q := strOf(a[0]), strOf(a[1])
			if p.cells != nil || q.cells != nil {
				in.unsupported("strings.Index on symbolic string")
			}
			return Value{n: uint64(strings.Index(p.s, q.s))}
		},
		"strings.Repeat": func(in *Interp, a []Value) Value {
			return mkStr(strings.Repeat(strArg(a[0]), int(in.concInt(a[1]))))
		},
		"strconv.FormatFloat": func(in *Interp, a []Value) Value { return mkStr("<float>") },
	}
}

func (in *Interp) cellsOfSlice(v Value) []Value {
	s, ok := in.sliceOf(v)
	if !ok {
		return nil
	}
	return s.obj.cells[s.off : s.off+s.len*s.es]
}

func (in *Interp) indexByte(cs []Value, b Value) Value {
	for i, c := range cs {
		if in.branch(in.ctx.Eq(in.tm(c, 8), in.tm(b, 8))) {
			return Value{n: uint64(i)}
		}
	}
	return Value{n: ^uint64(0)}
}

func (in *Interp) floatMinMax2(a []Value, isMin bool) *Term {
	p, q := in.tm(a[0], 64), in.tm(a[1], 64)
	// math.Min/Max: infinities take precedence over NaN
	c := in.ctx
	inf := math.Inf(1)
	if isMin {
		inf = math.Inf(-1)
	}
	k := c.Const(64, math.Float64bits(inf))
	return c.Ite(c.Or(c.Eq(p, k), c.Eq(q, k)), k, in.floatMinMax(p, q, isMin))
}

func (in *Interp) clz(v Value, w uint8) Value {
	c := in.ctx
	if v.r == nil {
		return Value{n: uint64(bits.LeadingZeros64(v.n) - 64 + int(w))}
	}
	t := v.r.(*Term)
	if w == 64 && t.op == OLShr && t.a.op == OConst && t.a.k == ^uint64(0) && t.b.hi < 64 {
		return tv(t.b)
	}
	l := uint8(bits.Len64(t.lo))
	r := c.Const(64, uint64(w-l))
	for i := l; i < w; i++ { // from least significant bit up
		b := c.Extract(t, i, 1)
		r = c.Ite(c.Eq(b, c.Const(1, 1)), c.Const(64, uint64(w-1-i)), r)
	}
	return tv(r)
}

func (in *Interp) blen(v Value, w uint8) Value {
	c := in.ctx
	if v.r == nil {
		return Value{n: uint64(bits.Len64(v.n))}
	}
	t := v.r.(*Term)
	l := uint8(bits.Len64(t.lo))
	r := c.Const(64, uint64(l))
	for i := l; i < w; i++ {
		r = c.Ite(c.Eq(c.Extract(t, i, 1), c.Const(1, 1)), c.Const(64, uint64(i)+1), r)
	}
	return tv(r)
}

func (in *Interp) ctz(v Value, w uint8) Value {
	c := in.ctx
	if v.r == nil {
		return Value{n: uint64(min(bits.TrailingZeros64(v.n), int(w)))}
	}
	t := v.r.(*Term)
	if w == 64 && t.op == OShl && t.a.op == OConst && t.a.k == 1 && t.b.hi < 64 {
		return tv(t.b)
	}
	r := c.Const(64, uint64(w))
	for i := int(w) - 1; i >= 0; i-- {
		r = c.Ite(c.Eq(c.Extract(t, uint8(i), 1), c.Const(1, 1)), c.Const(64, uint64(i)), r)
	}
	return tv(r)
}

func (in *Interp) popcnt(v Value, w uint8) Value {
	c := in.ctx
	if v.r == nil {
		return Value{n: uint64(bits.OnesCount64(v.n))}
	}
	t := v.r.(*Term)
	var rec func(lo, n uint8) *Term
	rec = func(lo, n uint8) *Term {
		if n == 1 {
			return c.ZExt(c.Extract(t, lo, 1), 64)
		}
		return c.Add(rec(lo, n/2), rec(lo+n/2, n-n/2))
	}
	r := rec(0, w)
	if r.op == OAdd {
		c.popOf[r] = t
	}
	return tv(r)
}

func (in *Interp) errorsIs(err, target Value) bool {
	for n := 0; n < 50; n++ {
		if err.r == nil || target.r == nil {
			return err.r == target.r
		}
		x, y := err.r.(*Iface), target.r.(*Iface)
		if x.t == y.t && types.Comparable(x.t) {
			c := in.equal(x.v, y.v, x.t)
			if in.branch(c) {
				return true
			}
		}
		r, ok := in.callMethodByName(err, "Unwrap")
		if !ok {
			return false
		}
		if _, isI := r.r.(*Iface); !isI && r.r != nil {
			in.unsupported("errors.Is over multi-errors")
		}
		err = r
	}
	return false
}

func kindOf(iv Value) int {
	if iv.r == nil {
		return 0
	}
	switch iv.r.(*Iface).t.Underlying().(type) {
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Map:
		return 21
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Struct:
		return 25
	case *types.Array:
		return 17
	}
	return 2
}

func (in *Interp) sprintf(f string, args Value) string {
	var as []any
	if s, ok := in.sliceOf(args); ok {
		for i := 0; i < s.len; i++ {
			as = append(as, in.native(s.obj.cells[s.off+i]))
		}
	}
	f = strings.ReplaceAll(f, "%w", "%v")
	defer func() { recover() }()
	if f == "" {
		return fmt.Sprint(as...)
	}
	return fmt.Sprintf(f, as...)
}

func (in *Interp) native(v Value) any {
	if v.r == nil {
		return nil
	}
	i, ok := v.r.(*Iface)
	if !ok {
		return "?"
	}
	if isString(i.t) {
		return in.fmtTyped(i.v, i.t)
	}
	if w, signed, fl, ok := scalarInfo(i.t); ok {
		if i.v.r != nil {
			return "<sym>"
		}
		switch {
		case w == 0:
			return i.v.n != 0
		case fl && w == 32:
			return float32(bitsToF(i.v.n, 32))
		case fl:
			return bitsToF(i.v.n, w)
		case signed && w == 32:
			return int32(sext(i.v.n, w))
		case signed:
			return sext(i.v.n, w)
		case w == 8:
			return uint8(i.v.n)
		}
		return i.v.n
	}
	return in.fmtTyped(i.v, i.t)
}

type symSort struct {
	in   *Interp
	s    SliceV
	less Value
}

func (x *symSort) Len() int { return x.s.len }
func (x *symSort) Less(i, j int) bool {
	r := x.in.callVal(x.less, []Value{{n: uint64(i)}, {n: uint64(j)}})
	return x.in.branch(x.in.boolTerm(r))
}
func (x *symSort) Swap(i, j int) {
	o, es := x.s.obj, x.s.es
	ct := x.in.cellTypes(o.et)
	for k := 0; k < es; k++ {
		a, b := x.s.off+i*es+k, x.s.off+j*es+k
		va, vb := o.cells[a], o.cells[b]
		var t types.Type
		if k < len(ct) {
			t = ct[k]
		}
		x.in.setCell(o, a, vb, t)
		x.in.setCell(o, b, va, t)
	}
}

func sortSlice(in *Interp, a []Value) Value {
	if a[0].r == nil {
		return Value{}
	}
	s, ok := in.sliceOf(a[0].r.(*Iface).v)
	if !ok {
		return Value{}
	}
	if s.len <= 12 {
		x := &symSort{in, s, a[1]}
		for i := 1; i < s.len; i++ {
			for j := i; j > 0 && x.Less(j, j-1); j-- {
				x.Swap(j, j-1)
			}
		}
		return Value{}
	}
	sort.Sort(&symSort{in, s, a[1]})
	return Value{}
}

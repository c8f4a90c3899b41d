package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a target-program value. Scalars: n concrete (r nil) or r *Term.
// Pointers: r *Obj with n the cell offset, or *SymPtr. Everything else: r.
type Value struct {
	n uint64
	r any
}

// Obj is a heap object: a flat array of cells.
type Obj struct {
	cells []Value
	old   bool       // allocated before the path started: writes are logged
	et    types.Type // element type of the allocation (for unsafe reinterpretation)
	birth int64      // allocation epoch
}

// SymPtr is a pointer to element idx of an array (idx symbolic, in bounds).
type SymPtr struct {
	obj    *Obj
	base   int
	stride int
	count  int
	idx    *Term // 64 bit
}

type SliceV struct {
	obj           *Obj
	off, len, cap int // off in cells; len/cap in elements
	es            int // cells per element
}

type StrV struct {
	s     string
	cells []Value // non-nil: symbolic bytes
}

type Agg struct{ c []Value }

type Iface struct {
	t types.Type
	v Value
}

// Choice is a symbolic choice between two references (interfaces or pointers).
type Choice struct {
	c    *Term
	a, b Value
}

// sameRef tells whether two references are certainly identical.
func sameRef(a, b Value) bool {
	if a.r == b.r && a.n == b.n {
		return true
	}
	x, ok1 := a.r.(*Iface)
	y, ok2 := b.r.(*Iface)
	if ok1 && ok2 && x.t == y.t {
		switch x.v.r.(type) {
		case *Obj, nil:
			return x.v.r == y.v.r && x.v.n == y.v.n
		}
	}
	return false
}

// choose builds ite(c, a, b) for references.
func (in *Interp) choose(c *Term, a, b Value) Value {
	if c.isTrue() || sameRef(a, b) {
		return a
	}
	if c.isFalse() {
		return b
	}
	if y, ok := b.r.(*Choice); ok {
		if sameRef(a, y.a) {
			return in.choose(in.ctx.Or(c, y.c), a, y.b)
		}
		if sameRef(a, y.b) {
			return in.choose(in.ctx.And(in.ctx.Not(c), y.c), y.a, a)
		}
	}
	if x, ok := a.r.(*Choice); ok {
		if sameRef(b, x.b) {
			return in.choose(in.ctx.And(c, x.c), x.a, b)
		}
		if sameRef(b, x.a) {
			return in.choose(in.ctx.And(c, in.ctx.Not(x.c)), x.b, b)
		}
	}
	return Value{r: &Choice{c, a, b}}
}

// force resolves a Choice by branching.
func (in *Interp) force(v Value) Value {
	for {
		c, ok := v.r.(*Choice)
		if !ok {
			return v
		}
		if in.branch(c.c) {
			v = c.a
		} else {
			v = c.b
		}
	}
}

// simpChoice drops alternatives already decided.
func (in *Interp) simpChoice(v Value) Value {
	for {
		c, ok := v.r.(*Choice)
		if !ok {
			return v
		}
		k, known := in.lookup(c.c)
		if !known {
			return v
		}
		if k {
			v = c.a
		} else {
			v = c.b
		}
	}
}

type Closure struct {
	fn   *ssa.Function
	bind []Value
	nat  func(in *Interp, args []Value) Value
}

type mapEntry struct {
	k, v Value
	del  bool
	sym  bool
}

type MapObj struct {
	ents   []mapEntry
	idx    map[string]int // concrete keys
	nsym   int
	live   int
	old    bool
	birth  int64
	kt     types.Type
	logged bool
}

type mapIter struct {
	m   *MapObj
	pos int
	bs  string
	s   bool
}

func (v Value) term() *Term { t, _ := v.r.(*Term); return t }

func mkStr(s string) Value { return Value{r: &StrV{s: s}} }

func u8v(b byte) Value { return Value{n: uint64(b)} }

// strLen etc. A nil r string is the empty string.
func strOf(v Value) *StrV {
	if v.r == nil {
		return &StrV{}
	}
	return v.r.(*StrV)
}
func (s *StrV) length() int {
	if s.cells != nil {
		return len(s.cells)
	}
	return len(s.s)
}
func (s *StrV) at(i int) Value {
	if s.cells != nil {
		return s.cells[i]
	}
	return u8v(s.s[i])
}
func strFromCells(cs []Value) Value {
	b := make([]byte, len(cs))
	for i, c := range cs {
		if c.r != nil {
			return Value{r: &StrV{cells: append([]Value{}, cs...)}}
		}
		b[i] = byte(c.n)
	}
	return mkStr(string(b))
}
func (s *StrV) toCells() []Value {
	if s.cells != nil {
		return s.cells
	}
	cs := make([]Value, len(s.s))
	for i := 0; i < len(s.s); i++ {
		cs[i] = u8v(s.s[i])
	}
	return cs
}

// ---------------------------------------------------------------- type layout

type layout struct {
	size map[types.Type]int
	offs map[*types.Struct][]int
	ct   map[types.Type][]types.Type
}

func newLayout() *layout {
	return &layout{map[types.Type]int{}, map[*types.Struct][]int{}, map[types.Type][]types.Type{}}
}

func (l *layout) cells(t types.Type) int {
	if n, ok := l.size[t]; ok {
		return n
	}
	n := 1
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n = 0
		for i := 0; i < u.NumFields(); i++ {
			n += l.cells(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * l.cells(u.Elem())
	case *types.Tuple:
		n = 0
		for i := 0; i < u.Len(); i++ {
			n += l.cells(u.At(i).Type())
		}
	}
	l.size[t] = n
	return n
}

func (l *layout) fieldOff(s *types.Struct, i int) int {
	o, ok := l.offs[s]
	if !ok {
		n := 0
		for j := 0; j < s.NumFields(); j++ {
			o = append(o, n)
			n += l.cells(s.Field(j).Type())
		}
		l.offs[s] = o
	}
	return o[i]
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// basicInfo describes scalar types.
func scalarInfo(t types.Type) (w uint8, signed, float, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, false, true
	case types.Int8:
		return 8, true, false, true
	case types.Int16:
		return 16, true, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, false, true
	case types.Uint8:
		return 8, false, false, true
	case types.Uint16:
		return 16, false, false, true
	case types.Uint32:
		return 32, false, false, true
	case types.Float32:
		return 32, false, true, true
	case types.Float64, types.UntypedFloat:
		return 64, false, true, true
	}
	return 0, false, false, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.String || b.Kind() == types.UntypedString)
}

func isIface(t types.Type) bool { return types.IsInterface(t) }

// concKey encodes a fully concrete value as a map key.
func (in *Interp) concKey(v Value, t types.Type, sb *strings.Builder) bool {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		off := 0
		a := v.r.(*Agg).c
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := in.lay.cells(ft)
			var fv Value
			if isAgg(ft) {
				fv = Value{r: &Agg{a[off : off+n]}}
			} else {
				fv = a[off]
			}
			if !in.concKey(fv, ft, sb) {
				return false
			}
			off += n
		}
		return true
	case *types.Array:
		n := in.lay.cells(u.Elem())
		a := v.r.(*Agg).c
		for i := 0; i < int(u.Len()); i++ {
			var fv Value
			if isAgg(u.Elem()) {
				fv = Value{r: &Agg{a[i*n : i*n+n]}}
			} else {
				fv = a[i]
			}
			if !in.concKey(fv, u.Elem(), sb) {
				return false
			}
		}
		return true
	case *types.Basic:
		if isString(t) {
			s := strOf(v)
			if s.cells != nil {
				return false
			}
			fmt.Fprintf(sb, "s%d:%s", len(s.s), s.s)
			return true
		}
		if v.r != nil {
			return false
		}
		if _, _, fl, _ := scalarInfo(t); fl {
			f := bitsToF(v.n, 64)
			if w, _, _, _ := scalarInfo(t); w == 32 {
				f = bitsToF(v.n, 32)
			}
			if f == 0 {
				fmt.Fprintf(sb, "i0;")
				return true
			}
		}
		fmt.Fprintf(sb, "i%d;", v.n)
		return true
	case *types.Interface:
		if v.r == nil {
			sb.WriteString("nil;")
			return true
		}
		i := v.r.(*Iface)
		sb.WriteString(i.t.String())
		return in.concKey(i.v, i.t, sb)
	default:
		fmt.Fprintf(sb, "p%p+%d;", v.r, v.n)
		return true
	}
}
